#define RRR_BUILD_DIR "/repo"
