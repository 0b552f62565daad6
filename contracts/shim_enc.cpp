// the way the executor drives the encoder: translate the list, then resolve the jumps (Executor_X86::TranslateToNative)
#include "Translator_X86.h"
#include "CodeGen_X86.h"

unsigned char* vc_encode(unsigned char *code, unsigned char *codeEnd, x86Instruction *start, unsigned count, FastVector<unsigned char*> *instAddress)
{
	unsigned char *end = x86TranslateInstructionList(code, codeEnd, start, count, instAddress->data);

	x86SatisfyJumps(*instAddress);

	return end;
}
