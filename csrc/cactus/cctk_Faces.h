#define CCTK_ALL_FACES 63
