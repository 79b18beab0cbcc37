#include "gridfunctions.hh"
namespace {
SIM_FCASE(functions_M3, M3)
}
