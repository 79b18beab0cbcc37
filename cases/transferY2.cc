#include "transfer.hh"
namespace {
SIM_TCASE(transfer_Y2, DGMaker<true>, TYasp<2>)
}
