#define SLIDE_ROOT_DIR "/simroot"
