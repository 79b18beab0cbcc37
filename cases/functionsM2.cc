#include "gridfunctions.hh"
namespace {
SIM_FCASE(functions_M2, M2)
}
