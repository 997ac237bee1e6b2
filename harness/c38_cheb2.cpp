#define NS ChebyshevII
#define FNAME "ChebyshevII"
#define FAM CHEB2
#define FN userCheb2
#define EXTRA ATT
#include "c38_pole.inc"
