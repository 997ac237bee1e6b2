#define NS Butterworth
#define FNAME "Butterworth"
#define FAM BUTTER
#define FN userButter
#include "c38_pole.inc"
