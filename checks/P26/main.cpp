// Hosts the Python interpreter with all extension modules of python/src built
// in (under the sanitizers) and runs the monitor script.
#include <Python.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#define MOD(N, P) extern "C" PyObject *PyInit_##N();
#include "mods.inc"
#undef MOD

int main(int argc, char **argv)
{
#define MOD(N, P) PyImport_AppendInittab(#N, PyInit_##N);
#include "mods.inc"
  std::string dir = P26_DIR, script = dir + "/test.py";
  PyConfig config;
  PyConfig_InitPythonConfig(&config);
  config.site_import = 1;
  config.use_environment = 0;
  config.write_bytecode = 0;
  config.user_site_directory = 0;
  config.parse_argv = 0;
  PyConfig_SetBytesString(&config, &config.program_name, "/usr/bin/python3");
  PyConfig_SetBytesArgv(&config, argc, argv);
  PyStatus st = Py_InitializeFromConfig(&config);
  if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); return 3;}
  PyConfig_Clear(&config);
  FILE *f = fopen(script.c_str(), "r");
  if (!f) { perror(script.c_str()); return 3;}
  int rc = PyRun_SimpleFileEx(f, script.c_str(), 1);
  fflush(0);
  if (rc) return 3;
  if (Py_FinalizeEx() < 0) return 4;
  return 0;
}
