#define NS Butterworth
#define FNAME "Butterworth"
#define FAM BUTTER
#define FN regButter
#include "reg_pole.inc"
