#include "transfer.hh"
namespace {
SIM_TCASE(transfer_T3, PieceMaker, TSim<3>)
}
