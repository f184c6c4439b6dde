/* What each function of the public header stands for, in terms of the internal
 * interface.  Compared with the library's implementation after optimisation. */
#include "cora.h"
#include "reader.h"
#include "types.h"
#define CORA_IMPLEMENTATION
#include "runtime.h"

#define REF(name) ref_##name

GC *REF(coraGetGC)(Cora *co) { return co->gc; }
void *REF(coraMustCObj)(Obj o) { return mustCObj(o); }
Obj REF(coraMakeNumber)(int v) { return makeNumber(v); }
bool REF(coraIsNumber)(Obj o) { return isNumber(o); }
int REF(coraFixnum)(Obj o) { return fixnum(o); }
Obj REF(coraMakeBytes)(Cora *co, int len) { return makeBytes(co->gc, len); }
char *REF(coraBytesData)(Obj o) { return bytesData(o); }
int REF(coraBytesLen)(Obj o) { return bytesLen(o); }
Obj REF(coraMakeString)(Cora *co, char *s, int len) { return makeString(co->gc, s, len); }
Obj REF(coraMakeCString)(Cora *co, char *s) { return makeCString(co->gc, s); }
Obj REF(coraMakeCons)(Cora *co, Obj a, Obj d) { return makeCons(co->gc, a, d); }
Obj REF(coraCar)(Obj o) { return car(o); }
Obj REF(coraCdr)(Obj o) { return cdr(o); }
Obj REF(coraMakeVector)(Cora *co, int size, int cap) { return makeVector(co->gc, size, cap); }
Obj REF(coraVectorRef)(Obj vec, int idx) { return vectorRef(vec, idx); }
Obj REF(coraVectorSet)(Cora *co, Obj vec, int idx, Obj val) { return vectorSet(co->gc, vec, idx, val); }
Obj REF(coraVectorAppend)(Cora *co, Obj vec, Obj val) { return vectorAppend(co->gc, vec, val); }
bool REF(coraIsVector)(Obj o) { return isvector(o); }
int REF(coraVectorLength)(Obj vec) { return vectorLength(vec); }
Obj REF(coraMakeSymbol)(char *s) { return intern(s); }
Obj REF(coraSymbolGet)(Cora *co, Obj sym) { return symbolGet(co, sym); }
Obj REF(coraGetResult)(Cora *co) { return co->res; }
Obj REF(coraPrimSet)(Cora *co, Obj key, Obj val) { return primSet(co, key, val); }
Obj REF(coraPrimGenSym)(Cora *co) { return primGenSym(co); }
Obj REF(coraReverse)(Cora *co, Obj o) { return reverse(co->gc, o); }
