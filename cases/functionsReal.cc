#include "gridfunctions.hh"
namespace {
SIM_FCASE(functions_Y2, YaspEnv<2>)
SIM_FCASE(functions_D1, OneDEnv)
}
