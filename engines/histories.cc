// Random histories; the properties differ in what the histories mix and in
// what is inspected after every step.
#include "common.hh"
namespace sim {

// which kinds of sources take part
static int kindsOf(World& w, int basisMask) { return w.isBasis() ? basisMask : flip(1, 2) ? 0xffff : 1 << choose(w.kinds()); }

static void bindHistory() {
  auto w = pickCase(C_BASIS | C_FUNCTION | C_TRANSFER).make();
  HistoryConfig c;
  c.steps = 6 + choose(30);
  c.wMake = 2; c.wDerive = 1; c.wDrop = 1; c.wUnbind = 2; c.wBind = 12;
  c.wRemesh = choose(2); c.wUpdate = choose(2); c.wCopy = choose(2);
  c.kindMask = kindsOf(*w, 15);
  c.faultSites = flip(1, 3) ? ALLFAULTS : 0; c.faultNum = 1; c.faultDen = 8;
  runHistory(*w, c);
}
static RegisterEngine e1("P01", "bind-histories", 1, bindHistory);

static void copyHistory() {
  auto w = pickCase(C_BASIS | C_FUNCTION | C_TRANSFER).make();
  HistoryConfig c;
  c.steps = 6 + choose(30);
  c.wBind = 6; c.wUnbind = 1; c.wMake = 2; c.wDrop = 2; c.wCopy = 4; c.wMove = 2; c.wAssign = 5; c.wMoveAssign = 2; c.wSelfAssign = 1; c.wDerive = 1;
  c.wNewSource = 1; c.wCopySource = 1; c.wMoveSource = choose(2); c.wAssignSource = 1; c.wKillSource = 1;
  c.kindMask = kindsOf(*w, 1 + choose(15));
  c.faultSites = flip(1, 4) ? ALLFAULTS : 0; c.faultNum = 1; c.faultDen = 8;
  runHistory(*w, c);
}
static RegisterEngine e2("P02", "copy-histories", 1, copyHistory);

static void updateHistory() {
  auto w = pickCase(C_BASIS).make();
  HistoryConfig c;
  c.steps = 8 + choose(30);
  c.wBind = 4; c.wUnbind = 1; c.wMake = 2; c.wDrop = 1; c.wNewSource = 1; c.wRemesh = 3; c.wUpdate = 4;
  c.wCopySource = choose(2); c.wAssignSource = choose(2); c.wSalt = 1;
  c.kindMask = flip(1, 2) ? 1 : 5;
  c.faultSites = flip(1, 2) ? ALLFAULTS : 0; c.faultNum = 1; c.faultDen = 4;
  runHistory(*w, c);
}
static RegisterEngine e4("P04", "update-histories", 1, updateHistory);

// histories of the basis alone; the invariant is checked whenever it changed
static void invariantHistory(const std::function<void(World&, Source&)>& f, int steps) {
  auto w = pickCase(C_BASIS).make();
  HistoryConfig c;
  c.steps = 3 + choose(steps);
  c.wBind = 0; c.wUnbind = 0; c.wMake = 0; c.wDrop = 0; c.wNewSource = 1; c.wRemesh = 3; c.wUpdate = 3;
  c.wCopySource = 1; c.wMoveSource = choose(2); c.wAssignSource = 1; c.wKillSource = 1;
  c.kindMask = 1;
  c.faultSites = flip(1, 3) ? ALLFAULTS : 0; c.faultNum = 1; c.faultDen = 4;
  c.isolated = false;
  c.inspect = f;
  runHistory(*w, c);
}
static void numbering() {
  invariantHistory([](World& w, Source& s) {
    Disarmed d;
    rec->comparisons++;
    auto e = w.checkNumbering(s);
    if (!e.empty()) violation("numbering", e);
  }, 10);
}
static RegisterEngine e5("P05", "numbering", 1, numbering);
static void conforming() {
  invariantHistory([](World& w, Source& s) {
    int salt = (int)choose(1000);
    Disarmed d;
    auto e = w.checkConforming(s, salt);
    if (!e.empty()) violation("not-conforming", e);
  }, 10);
}
static RegisterEngine e12("P12", "conformity", 1, conforming);
static void shapes() {
  invariantHistory([](World& w, Source& s) {
    int salt = (int)choose(100000);
    Disarmed d;
    auto e = w.checkShapeFunctions(s, salt);
    if (!e.empty()) violation("shape-functions", e);
  }, 10);
}
static RegisterEngine e17("P17", "shape functions", 1, shapes);
static void traversal() {
  invariantHistory([](World& w, Source& s) {
    Disarmed d;
    auto e = w.checkTraversal(s);
    if (!e.empty()) violation("traversal", e);
  }, 6);
}
static RegisterEngine e15("P15", "traversal", 1, traversal);

static void failureHistory() {
  auto& cs = pickCase(C_BASIS | C_FUNCTION | C_TRANSFER);
  leakFree([&] {
    auto w = cs.make();
    HistoryConfig c;
    c.steps = 6 + choose(20);
    c.wBind = 6; c.wUnbind = 1; c.wMake = 3; c.wDrop = 2; c.wCopy = 3; c.wMove = 1; c.wAssign = 3; c.wMoveAssign = 1; c.wDerive = 1;
    c.wNewSource = 2; c.wCopySource = 2; c.wAssignSource = 1; c.wKillSource = 1; c.wRemesh = choose(2); c.wUpdate = 2; c.wEval = 1;
    c.kindMask = kindsOf(*w, 1 + choose(15));
    c.faultSites = ALLFAULTS; c.faultNum = 1; c.faultDen = 2;
    c.isolated = false;
    runHistory(*w, c);
  });
}
static RegisterEngine e8("P08", "failures", 3, failureHistory);

static void lifetimeHistory() {
  auto w = pickCase(C_BASIS | C_FUNCTION | C_TRANSFER).make();
  HistoryConfig c;
  c.steps = 8 + choose(30);
  c.wBind = 6; c.wUnbind = 1; c.wMake = 4; c.wDrop = 2; c.wCopy = 2; c.wMove = 1; c.wAssign = 1; c.wMoveAssign = 1; c.wDerive = 2;
  c.wNewSource = 3; c.wCopySource = 2; c.wMoveSource = 3; c.wAssignSource = 2; c.wKillSource = 5; c.wEval = 1;
  c.kindMask = kindsOf(*w, flip(1, 2) ? 15 : 10);
  c.maxSources = 4;
  c.faultSites = flip(1, 4) ? ALLFAULTS : 0; c.faultNum = 1; c.faultDen = 8;
  runHistory(*w, c);
}
static RegisterEngine e9("P09", "lifetimes", 1, lifetimeHistory);

static void valueHistory() {
  auto w = pickCase(C_BASIS).make();
  HistoryConfig c;
  c.steps = 6 + choose(24);
  c.wBind = 8; c.wUnbind = 1; c.wMake = 4; c.wDrop = 1; c.wCopy = 1; c.wDerive = 2;
  c.wNewSource = 2; c.wRemesh = choose(2); c.wUpdate = 1; c.wSalt = 3; c.wEval = 3;
  c.kindMask = flip(1, 2) ? 14 : 12;
  c.faultSites = flip(1, 4) ? ALLFAULTS : 0; c.faultNum = 1; c.faultDen = 8;
  c.isolated = false;
  c.absolute = true;
  runHistory(*w, c);
}
static RegisterEngine e11("P11", "values", 1, valueHistory);

static void functionHistory(unsigned flags) {
  auto w = pickCase(flags).make();
  HistoryConfig c;
  c.steps = 6 + choose(30);
  c.wBind = 8; c.wUnbind = 1; c.wMake = 4; c.wDrop = 1; c.wCopy = 2; c.wMove = 1; c.wAssign = 2; c.wMoveAssign = 1; c.wSelfAssign = choose(2); c.wDerive = 3;
  c.wNewSource = 2; c.wCopySource = 1; c.wMoveSource = choose(2); c.wAssignSource = 1; c.wKillSource = 1; c.wRemesh = choose(2); c.wUpdate = 1; c.wEval = 3;
  c.kindMask = kindsOf(*w, 15);
  c.faultSites = flip(1, 4) ? ALLFAULTS : 0; c.faultNum = 1; c.faultDen = 8;
  c.isolated = false;
  c.absolute = true;
  runHistory(*w, c);
}
static RegisterEngine e14("P14", "transfer", 1, [] { functionHistory(C_TRANSFER); });
static RegisterEngine e16("P16", "grid-functions", 1, [] { functionHistory(C_FUNCTION); });

static void environment() {
  auto w = pickCase(C_BASIS | C_FUNCTION | C_TRANSFER).make();
  HistoryConfig c;
  c.steps = 6 + choose(20);
  c.wBind = 8; c.wUnbind = 1; c.wMake = 3; c.wDrop = 1; c.wCopy = 2; c.wMove = 1; c.wAssign = 2; c.wDerive = 1;
  c.wNewSource = 1; c.wRemesh = choose(2); c.wUpdate = 1; c.wSalt = 1; c.wEval = 1;
  c.kindMask = kindsOf(*w, 15);
  c.isolated = false;
  runHistory(*w, c);
}
static RegisterEngine e13("P13", "environments", 1, environment);
} // namespace sim
