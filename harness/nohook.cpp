// The definition of the stage hook for programs which do not observe the stages.
#include "Types.h"
void pppVerifOnStage(const char*, const ppp::types::PdfDocument*) {}
