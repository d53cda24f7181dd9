// Harness helpers with two implementations: the PETSc model (symbolic run) and
// the installed PETSc (replay).
#pragma once
extern "C" {
int hx_petsc_errors();                     // PETSc errors raised so far
void hx_opt_int(const char *name, int v);  // command-line options
void hx_opt_real(const char *name, double v);
void hx_opt_bool(const char *name, int v);
void hx_opt_str(const char *name, const char *v);
// what was written to a file: number of dimensions (-1: not there), values in the order of the file
int hx_saved(const char *file, const char *dataset, int *dims);
double hx_saved_at(const char *file, const char *dataset, long i);
}
