// FLAVOR: asan
// Packet identifiers: all sequences of taking and releasing from many fill levels, compared with a plain set.
#include "mc.h"
#include <string.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/mqtt/mqtt_id_pool.h"

static uint8_t used[65536]; static int nused;
static void get (struct rrr_mqtt_id_pool *p) {
	int id = rrr_mqtt_id_pool_get_id(p);
	if (!id) { if (nused < 65535) mc_fail("no identifier although only %d are in use", nused); return; }
	if (used[id]) mc_fail("identifier %d is handed out while it is in use", id);
	used[id] = 1; nused++;
}
static void rel (struct rrr_mqtt_id_pool *p, int id) { if (!used[id]) return; mc_log("release %d", id); rrr_mqtt_id_pool_release_id(p, (uint16_t) id); used[id] = 0; nused--; }
static void seq (const int *fill, int nfill, int depth) {
	struct rrr_mqtt_id_pool p; memset(used, 0, sizeof used); nused = 0; if (rrr_mqtt_id_pool_init(&p)) mc_error("init");
	int n = mc_pick(fill, nfill, "in use"); for (int i = 0; i < n; i++) get(&p);
	int hi = n; // identifiers around the borders which matter
	const int c[] = { 1, 2, 31, 32, 33, 64, 65, hi / 2, hi - 1, hi, 65535 };
	switch (mc_choose(5, "holes")) { case 0: break; case 1: for (int i = 1; i <= n; i += 2) { rrr_mqtt_id_pool_release_id(&p, (uint16_t) i); used[i] = 0; nused--; } break;
		case 2: for (int i = 1; i <= n / 2; i++) { rrr_mqtt_id_pool_release_id(&p, (uint16_t) i); used[i] = 0; nused--; } break;
		case 3: for (int i = n / 2 + 1; i <= n; i++) { rrr_mqtt_id_pool_release_id(&p, (uint16_t) i); used[i] = 0; nused--; } break;
		default: for (int i = 1; i <= n; i++) { rrr_mqtt_id_pool_release_id(&p, (uint16_t) i); used[i] = 0; nused--; } }
	for (int s = 0; s < depth; s++) {
		int a = mc_choose(13, "step");
		if (a < 2) { int k = a ? 33 : 1; while (k--) get(&p); }
		else { int id = c[a - 2]; if (id < 1 || !used[id]) break; rel(&p, id); }
		mc_step();
	}
	for (int i = 0; i < 40; i++) get(&p); // nothing is handed out twice later
	mc_obs((uint64_t) nused); rrr_mqtt_id_pool_clear(&p); memset(used, 0, sizeof used); nused = 0; get(&p); rrr_mqtt_id_pool_destroy(&p);
}
static void small (void) { static const int f[] = { 0, 1, 31, 32, 33, 64, 100 }; seq(f, 7, mc_tier() ? 6 : 5); }
static void large (void) { static const int f[] = { 16351, 16352, 16383, 16384, 16385, 49152, 65503, 65534, 65535 }; seq(f, 9, mc_tier() ? 3 : 2); }
int main (int argc, char **argv) {
	static const struct mc_scenario sc[] = { { "small", small, -1, -1, MC_LEAKCHECK, NULL }, { "large", large, -1, -1, MC_LEAKCHECK, NULL } };
	return mc_main(argc, argv, "C08", sc, sizeof sc / sizeof *sc);
}
