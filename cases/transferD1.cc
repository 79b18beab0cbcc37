#include "transfer.hh"
namespace {
SIM_TCASE(transfer_D1, DGMaker<false>, TOneD)
}
