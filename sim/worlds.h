#ifndef VERIF_SIM_WORLDS_H_
#define VERIF_SIM_WORLDS_H_
int world_lib(int argc, char **argv);
int world_particles(int argc, char **argv);
int world_grid(int argc, char **argv);
void factors_init();
void factors_finish(int rc);
#endif
