// Stand-ins for the parts of arkimet's Python module which need libraries that are not installed here
// (DB-All.e, meteo-vm2), so that the rest of the module can be linked, and a function to install the
// harness' scanners of synthetic data.
#include <Python.h>
#include "../common.h"

static PyObject* install_scanners(PyObject*, PyObject*)
{
    vh::install_scanners();
    Py_RETURN_NONE;
}
static PyMethodDef methods[] = {{"vh_install_scanners", install_scanners, METH_NOARGS, ""}, {nullptr}};

namespace arki { namespace python {
void register_arki_bufr_prepare(PyObject* m)
{
    Py_INCREF(&PyBaseObject_Type);
    PyModule_AddObject(m, "ArkiBUFRPrepare", (PyObject*)&PyBaseObject_Type);
}
namespace scan {
void register_scan_vm2(PyObject* m) { PyModule_AddFunctions(m, methods); }
}
} }
