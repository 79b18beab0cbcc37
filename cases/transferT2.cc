#include "transfer.hh"
namespace {
SIM_TCASE(transfer_T2, PieceMaker, TSim<2>)
}
