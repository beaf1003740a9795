/* Runs a real module's thread function in the harness thread. The module is compiled through REPO:, its edges to
 * the framework (event loop, poll, message broker) are replaced by the stubs below.
 * The harness sets mr_body, which is called in place of the event loop. */
#ifndef MODRUN_H
#define MODRUN_H
#include "mc.h"
#include "lib/rrr_types.h"
#include "lib/instances.h"
#include "lib/instance_config.h"
#include "lib/settings.h"
#include "lib/threads.h"
#include "lib/event/event.h"
#include "lib/message_broker.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/messages/msg_msg.h"
#include "lib/array.h"
#include "lib/poll_helper.h"
#include "lib/allocator.h"

void init (struct rrr_instance_module_data *data);

static struct rrr_instance_module_data mr_module;
static struct rrr_instance mr_instance;
static struct rrr_instance_config_data mr_config;
static struct rrr_thread mr_thread;
static struct rrr_instance_runtime_data *mr_data;
static void (*mr_body) (void);
static void (*mr_on_output) (struct rrr_msg_holder *e);
static int mr_started, mr_dispatched;

static struct rrr_msg_holder *mr_input[16];
static int mr_input_n;

void rrr_thread_start_condition_helper_nofork (struct rrr_thread *t) { (void) t; mr_started = 1; }
int rrr_event_dispatch (struct rrr_event_queue *q, unsigned int us, int (*f)(RRR_EVENT_FUNCTION_PERIODIC_ARGS), void *arg) {
	(void) q; (void) us; mr_dispatched = 1;
	mc_check(f(arg) == 0, "periodic function asks to stop");
	if (mr_body) mr_body();
	return 0;
}
int rrr_poll_do_poll_delete_custom_arg (uint16_t *amount, struct rrr_instance_runtime_data *td, int (*cb)(RRR_MODULE_POLL_CALLBACK_SIGNATURE), void *arg) {
	int ret = 0; (void) td;
	while (*amount > 0 && mr_input_n > 0 && ret == 0) {
		struct rrr_msg_holder *e = mr_input[0];
		memmove(mr_input, mr_input + 1, sizeof(mr_input) - sizeof(*mr_input)); mr_input_n--; (*amount)--;
		rrr_msg_holder_lock(e);
		ret = cb(e, arg);
		rrr_msg_holder_decref(e);
	}
	return ret;
}
int rrr_poll_do_poll_delete (uint16_t *amount, struct rrr_instance_runtime_data *td, int (*cb)(RRR_MODULE_POLL_CALLBACK_SIGNATURE)) {
	return rrr_poll_do_poll_delete_custom_arg(amount, td, cb, td);
}
int rrr_message_broker_incref_and_write_entry_unsafe (struct rrr_message_broker_costumer *c, struct rrr_msg_holder *e, const rrr_msg_holder_nexthops *n, int (*cc)(void *), void *a) {
	(void) c; (void) n; (void) cc; (void) a;
	if (mr_on_output) mr_on_output(e);
	return 0;
}
int rrr_message_broker_write_entry (struct rrr_message_broker_costumer *c, const struct sockaddr *addr, socklen_t sl, uint8_t proto, const rrr_msg_holder_nexthops *n,
	int (*cb)(struct rrr_msg_holder *, void *), void *cba, int (*cc)(void *), void *a) {
	(void) c; (void) n; (void) cc; (void) a;
	struct rrr_msg_holder *e = NULL;
	if (rrr_msg_holder_new(&e, 0, addr, sl, proto, NULL)) mc_error("holder");
	rrr_msg_holder_lock(e);
	int ret = cb(e, cba);
	/* callback unlocks */
	if (ret == 0) { rrr_msg_holder_lock(e); if (mr_on_output) mr_on_output(e); rrr_msg_holder_unlock(e); }
	rrr_msg_holder_decref(e);
	return (ret & 1) ? 1 : 0;
}
/* settings: NULL terminated name, value, name, value... */
static void mr_run (const char **settings) {
	int n = 0; while (settings[n]) n += 2;
	if (!mr_data) mr_data = malloc(sizeof(*mr_data));
	memset(mr_data, 0, sizeof(*mr_data));
	memset(&mr_module, 0, sizeof(mr_module)); memset(&mr_instance, 0, sizeof(mr_instance)); memset(&mr_config, 0, sizeof(mr_config)); memset(&mr_thread, 0, sizeof(mr_thread));
	init(&mr_module);
	mr_module.instance_name = "inst";
	mr_config.name_main = "inst"; mr_config.name_debug = "inst";
	mr_config.settings = rrr_settings_new((rrr_length) (n / 2 + 1));
	for (int i = 0; i < n; i += 2) if (rrr_settings_add_string(mr_config.settings, settings[i], settings[i + 1])) mc_error("setting");
	if (rrr_settings_used_init(&mr_config.settings_used, mr_config.settings)) mc_error("settings_used");
	mr_instance.module_data = &mr_module; mr_instance.config = &mr_config; mr_instance.thread = &mr_thread;
	mr_data->init_data.instance_config = &mr_config; mr_data->init_data.module = &mr_module; mr_data->init_data.instance = &mr_instance;
	mr_data->thread = &mr_thread; mr_thread.private_data = mr_data;
	mr_started = mr_dispatched = 0;
	mr_module.operations.thread_entry(&mr_thread);
	rrr_settings_used_cleanup(&mr_config.settings_used);
	rrr_settings_destroy(mr_config.settings);
	while (mr_input_n) rrr_msg_holder_decref(mr_input[--mr_input_n]);
}
/* Give one message to the module through its poll function */
static void mr_give (struct rrr_msg_holder *e) {
	uint16_t amount = 1;
	mr_input[mr_input_n++] = e;
	int r = mr_module.event_functions.broker_data_available(&amount, &mr_thread);
	mc_check(r == 0, "the module's poll function failed with %d", r);
	mc_check(mr_input_n == 0 && amount == 0, "message not read by the module");
}
static struct rrr_msg_holder *mr_msg_data (const char *topic, const void *data, size_t len, uint64_t ts) {
	struct rrr_msg_msg *m = NULL; struct rrr_msg_holder *e = NULL;
	if (rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, ts, topic, (uint16_t) strlen(topic), data, (uint32_t) len)) mc_error("msg");
	if (rrr_msg_holder_new(&e, MSG_TOTAL_SIZE(m), NULL, 0, 0, m)) mc_error("holder");
	return e;
}
static struct rrr_msg_holder *mr_msg_array (const char *topic, const struct rrr_array *a, uint64_t ts) {
	struct rrr_msg_msg *m = NULL; struct rrr_msg_holder *e = NULL;
	if (rrr_array_new_message_from_array(&m, a, ts, topic, (uint16_t) strlen(topic))) mc_error("msg");
	if (rrr_msg_holder_new(&e, MSG_TOTAL_SIZE(m), NULL, 0, 0, m)) mc_error("holder");
	return e;
}
#endif
