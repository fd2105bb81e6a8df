// Instrumented payload: NAME##i bumps its execution count by one per call.
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define FN(i) int CAT(CAT(PAYLOAD, _f), i)(int x) { return x > 3 ? x * 2 : x + i; }
FN(0) FN(1) FN(2) FN(3)
int CAT(PAYLOAD, _call)(int i, int x) {
  switch (i) {
    case 0: return CAT(PAYLOAD, _f0)(x);
    case 1: return CAT(PAYLOAD, _f1)(x);
    case 2: return CAT(PAYLOAD, _f2)(x);
    default: return CAT(PAYLOAD, _f3)(x);
  }
}
