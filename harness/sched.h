struct layout { unsigned long pair, key, val, pairs, len, size, slots, next, done, top, VINIT, VTOMB, TP, MANY, NMO, KINIT, KTOMB, bits; };
enum { OP_PUT, OP_PIA, OP_REM, OP_REM2, OP_REPL, OP_INC, OP_UPD, OP_GET, OP_CONT, OP_SIZE, OP_EMPTY, OP_AINS, OP_AERA, OP_ACON, OP_AGET, OP_AINC, OP_ACNT, OP_N };
void vm_layout(struct layout *);
void *vm_new(unsigned long);
void *vm_adapter(void *);
unsigned long vm_op(void *, void *, int, unsigned long, unsigned long, unsigned long);
void *vm_map(int, unsigned long, unsigned long, const char *);
int vm_unmap(void *);
