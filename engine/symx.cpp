// symx: symbolic executor for LLVM IR.  Runs one harness function of a linked bitcode module on symbolic
// inputs, explores every feasible path and discharges each assertion with z3.
#include "arith.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cstdio>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <csignal>

using namespace llvm;
using std::string; using std::vector;

// ---------------------------------------------------------------- options / results
static vector<int64_t> g_args;
static bool g_lazyMax = true;
static uint64_t g_maxInstr = 40000000, g_pathInstr = 0;
static int g_maxViol = 4, g_witnesses = 3;
static uint64_t g_maxPaths = 1000000;
static std::map<string, int> g_unsupported, g_reach, g_callCount;
static std::set<string> g_functions;
static bool g_trace = false;

struct OutRec { string name; int idx; Val v; };
static vector<OutRec> g_outs;
struct Violation { string kind, msg; std::map<string, string> in; bool exact; };
static vector<Violation> g_viol;
static std::set<string> g_violMsgs;
struct Witness { std::map<string, string> in; std::map<string, string> out; };
static vector<Witness> g_wit;
static uint64_t g_vcThisPath = 0, g_pathsWithVc = 0, g_assumeDead = 0, g_tainted = 0, g_shape = 0, g_nf = 0;

struct Trap { string kind, msg; };   // the code under test did something it must not do

// ---------------------------------------------------------------- memory
static vector<MemObj*> g_mem;          // by id (globals first)
static size_t g_firstDyn = 0;
static Module* M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, uint32_t> g_gid;
static vector<const GlobalValue*> g_gByid;

static uint64_t addrOf(uint32_t id, uint64_t off) { return ((uint64_t)id << 32) + off; }
static void storeConst(MemObj* o, uint64_t off, const Constant* c);

static MemObj* obj(uint64_t a, const char* what)
{
    uint64_t id = a >> 32;
    if (id == 0) throw Trap{"memory", string("null pointer ") + what};
    if (id >= g_mem.size()) throw Trap{"memory", string("wild pointer ") + what};
    MemObj* o = g_mem[id];
    if (!o)
    {
        // lazily materialise a global
        if (id >= g_gByid.size()) throw Trap{"memory", string("wild pointer ") + what};
        const GlobalValue* gv = g_gByid[id];
        o = g_mem[id] = new MemObj;
        if (auto* v = dyn_cast<GlobalVariable>(gv))
        {
            uint64_t sz = v->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(v->getValueType()) : 64;
            if (v->isDeclaration() && sz < 64) sz = 64;
            o->init((uint32_t)sz, 2); o->ro = v->isConstant();
            if (v->hasInitializer()) storeConst(o, 0, v->getInitializer());
            else { std::fill(o->st.begin(), o->st.end(), B_CONC); }
        }
        else o->init(0, 2);
    }
    return o;
}
static uint64_t alloc(uint64_t n, uint8_t kind)
{
    MemObj* o = new MemObj; o->init((uint32_t)n, kind);
    g_mem.push_back(o);
    return addrOf((uint32_t)g_mem.size() - 1, 0);
}
static MemObj* access(uint64_t a, uint64_t n, const char* what, uint32_t& off)
{
    MemObj* o = obj(a, what);
    off = (uint32_t)a;
    if (!o->alive) throw Trap{"memory", string(o->kind == 1 ? "use after scope: " : "use after free: ") + what};
    if ((uint64_t)off + n > o->size)
        throw Trap{"memory", string("out of bounds ") + what + " (offset " + std::to_string(off) + " size " + std::to_string(n) + " object " + std::to_string(o->size) + (o->kind == 0 ? " heap)" : o->kind == 1 ? " stack)" : " global)")};
    return o;
}
static void splitCell(MemObj* o, uint32_t head)
{
    auto it = o->cells.find(head);
    Val v = it->second.first; uint32_t n = it->second.second;
    o->cells.erase(it);
    if (v.k == SINT || v.k == SBOOL)
    {
        if (v.k == SBOOL) { // i1/i8
            Z3_ast a = Z3_mk_ite(Z, v.c->ast, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 8)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 8)));
            v = mkSint(a, 8);
        }
        if (v.w == n * 8 && n > 1)
        {
            for (uint32_t i = 0; i < n; i++)
            {
                Val x = mkSint(Z3_mk_extract(Z, i * 8 + 7, i * 8, v.ast), 8);
                if (x.k == INT) { o->b[head + i] = (uint8_t)x.i; o->st[head + i] = B_CONC; }
                else { o->cells[head + i] = {x, 1}; o->st[head + i] = B_HEAD; }
            }
            return;
        }
    }
    for (uint32_t i = 0; i < n; i++) o->st[head + i] = B_UNINIT;
}
static void clearRange(MemObj* o, uint32_t off, uint32_t n)
{
    if (o->cells.empty()) return;
    for (uint32_t i = off; i < off + n;)
    {
        if (o->st[i] == B_HEAD)
        {
            uint32_t c = o->cells[i].second;
            if (i + c <= off + n) { o->cells.erase(i); for (uint32_t k = 0; k < c; k++) o->st[i + k] = B_UNINIT; i += c; }
            else splitCell(o, i);
        }
        else if (o->st[i] == B_CONT)
        {
            uint32_t h = i; while (o->st[h] == B_CONT) h--;
            uint32_t c = o->cells[h].second;
            if (c == 1 || o->cells[h].first.k == SINT) { splitCell(o, h); if (o->st[i] == B_CONT) i++; }
            else splitCell(o, h);
        }
        else i++;
    }
}
static void putBytes(MemObj* o, uint32_t off, uint64_t v, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) { o->b[off + i] = i < 8 ? (uint8_t)(v >> (8 * i)) : 0; o->st[off + i] = B_CONC; }
}
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

static void storeVal(MemObj* o, uint32_t off, Type* ty, const Val& v);
static void putVal(MemObj* o, uint32_t off, uint32_t n, const Val& v)
{
    clearRange(o, off, n);
    switch (v.k)
    {
    case INT: putBytes(o, off, v.i, n); return;
    case FPC: putBytes(o, off, dbits(v.d), n); return;
    case UNDEF: for (uint32_t i = 0; i < n; i++) o->st[off + i] = B_UNINIT; return;
    default: break;
    }
    o->cells[off] = {v, n};
    o->st[off] = B_HEAD; for (uint32_t i = 1; i < n; i++) o->st[off + i] = B_CONT;
}
static void storeVal(MemObj* o, uint32_t off, Type* ty, const Val& v)
{
    if (v.k == AGG)
    {
        if (auto* st = dyn_cast<StructType>(ty))
        {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(o, off + (uint32_t)sl->getElementOffset(i), st->getElementType(i), v.b->agg[i]);
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(ty))
        {
            uint32_t es = (uint32_t)DL->getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); i++) storeVal(o, off + i * es, at->getElementType(), v.b->agg[i]);
            return;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(ty))
        {
            uint32_t es = (uint32_t)DL->getTypeAllocSize(vt->getElementType());
            for (unsigned i = 0; i < vt->getNumElements(); i++) storeVal(o, off + i * es, vt->getElementType(), v.b->agg[i]);
            return;
        }
        throw Unsupported("aggregate store");
    }
    uint32_t n = (uint32_t)DL->getTypeStoreSize(ty);
    putVal(o, off, n, v);
}
static Val fromBits(uint64_t u, Type* ty, uint32_t n)
{
    if (ty->isDoubleTy()) return mkDouble(bitsd(u));
    if (ty->isFloatTy()) { uint32_t x = (uint32_t)u; float f; memcpy(&f, &x, 4); return mkDouble(f); }
    if (ty->isIntegerTy()) return mkInt(u, ty->getIntegerBitWidth());
    if (ty->isPointerTy()) return mkInt(u, 64);
    (void)n;
    throw Unsupported("load type");
}
static Val loadVal(MemObj* o, uint32_t off, Type* ty)
{
    if (ty->isAggregateType() || ty->isVectorTy())
    {
        vector<Val> r;
        if (auto* st = dyn_cast<StructType>(ty)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadVal(o, off + (uint32_t)sl->getElementOffset(i), st->getElementType(i))); }
        else if (auto* at = dyn_cast<ArrayType>(ty)) { uint32_t es = (uint32_t)DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) r.push_back(loadVal(o, off + i * es, at->getElementType())); }
        else { auto* vt = cast<FixedVectorType>(ty); uint32_t es = (uint32_t)DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(loadVal(o, off + i * es, vt->getElementType())); }
        return mkAgg(r);
    }
    uint32_t n = (uint32_t)DL->getTypeStoreSize(ty);
    bool conc = true, uninit = true;
    for (uint32_t i = 0; i < n; i++) { if (o->st[off + i] != B_CONC) conc = false; if (o->st[off + i] != B_UNINIT) uninit = false; }
    if (conc)
    {
        if (n > 8) throw Unsupported("wide load");
        uint64_t u = 0; for (uint32_t i = 0; i < n; i++) u |= (uint64_t)o->b[off + i] << (8 * i);
        return fromBits(u, ty, n);
    }
    if (uninit) return mkUndef();
    if (o->st[off] == B_HEAD && o->cells[off].second == n)
    {
        Val v = o->cells[off].first;
        if (v.k == SINT && ty->isIntegerTy() && v.w != ty->getIntegerBitWidth())
        {
            unsigned w = ty->getIntegerBitWidth();
            if (w < v.w) return mkSint(Z3_mk_extract(Z, w - 1, 0, v.ast), w);
            return mkSint(Z3_mk_zero_ext(Z, w - v.w, v.ast), w);
        }
        if (v.k == SBOOL && ty->isIntegerTy() && ty->getIntegerBitWidth() != 1)
            return mkInt(decideBool(v), ty->getIntegerBitWidth());
        if ((v.k == REAL || v.k == SPEC) && ty->isIntegerTy()) return v;
        return v;
    }
    if ((ty->isIntegerTy() || ty->isPointerTy()) && n <= 8)
    {
        // bit-vector concatenation of the pieces
        Z3_ast acc = nullptr; unsigned accw = 0;
        for (uint32_t i = 0; i < n;)
        {
            Z3_ast piece; unsigned pw;
            if (o->st[off + i] == B_CONC) { piece = Z3_mk_unsigned_int64(Z, o->b[off + i], Z3_mk_bv_sort(Z, 8)); pw = 8; i++; }
            else if (o->st[off + i] == B_HEAD && o->cells[off + i].first.k == SINT && i + o->cells[off + i].second <= n)
            {
                auto& c = o->cells[off + i]; piece = c.first.ast; pw = c.second * 8;
                if (c.first.w < pw) piece = Z3_mk_zero_ext(Z, pw - c.first.w, piece);
                i += c.second;
            }
            else if (o->st[off + i] == B_UNINIT) return mkUndef();
            else if (o->st[off + i] == B_HEAD && o->cells[off + i].first.k == SINT)
            {
                auto& c = o->cells[off + i]; uint32_t take = n - i;
                piece = Z3_mk_extract(Z, take * 8 - 1, 0, c.first.ast); pw = take * 8; i += take;
            }
            else if (o->st[off + i] == B_CONT)
            {
                uint32_t h = off + i; while (o->st[h] == B_CONT) h--;
                auto& c = o->cells[h]; if (c.first.k != SINT) throw Unsupported("partial load of a real");
                uint32_t s = off + i - h, take = std::min(n - i, c.second - s);
                piece = Z3_mk_extract(Z, (s + take) * 8 - 1, s * 8, c.first.ast); pw = take * 8; i += take;
            }
            else throw Unsupported("partial load of a real");
            Z3_inc_ref(Z, piece);
            acc = acc ? Z3_mk_concat(Z, piece, acc) : piece; accw += pw; Z3_inc_ref(Z, acc);
        }
        unsigned w = ty->isPointerTy() ? 64 : ty->getIntegerBitWidth();
        if (w < accw) acc = Z3_mk_extract(Z, w - 1, 0, acc);
        return mkSint(acc, w);
    }
    for (uint32_t i = 0; i < n; i++) if (o->st[off + i] == B_UNINIT) return mkUndef();
    throw Unsupported("mixed load");
}
static void copyMem(uint64_t dst, uint64_t src, uint64_t n)
{
    if (n == 0) return;
    uint32_t so, dof;
    MemObj* s = access(src, n, "read (copy)", so);
    MemObj* d = access(dst, n, "write (copy)", dof);
    if (d->ro) throw Trap{"memory", "write to constant"};
    // snapshot
    vector<uint8_t> b(s->b.begin() + so, s->b.begin() + so + n), st(s->st.begin() + so, s->st.begin() + so + n);
    vector<std::pair<uint32_t, std::pair<Val, uint32_t>>> cs;
    if (!s->cells.empty())
    {
        // split cells that straddle the borders
        if (st[0] == B_CONT) { uint32_t h = so; while (s->st[h] == B_CONT) h--; splitCell(s, h); }
        for (uint32_t i = so; i < so + n; i++) if (s->st[i] == B_HEAD && i + s->cells[i].second > so + n) splitCell(s, i);
        b.assign(s->b.begin() + so, s->b.begin() + so + n); st.assign(s->st.begin() + so, s->st.begin() + so + n);
        for (auto it = s->cells.lower_bound(so); it != s->cells.end() && it->first < so + n; ++it) cs.push_back({it->first - so, it->second});
    }
    clearRange(d, dof, (uint32_t)n);
    std::copy(b.begin(), b.end(), d->b.begin() + dof);
    std::copy(st.begin(), st.end(), d->st.begin() + dof);
    for (auto& c : cs) d->cells[dof + c.first] = c.second;
}

// ---------------------------------------------------------------- constants
static bool constAddr(const Constant* c, uint64_t& a)
{
    if (auto* g = dyn_cast<GlobalValue>(c))
    {
        if (auto* al = dyn_cast<GlobalAlias>(g)) return constAddr(al->getAliasee(), a);
        auto it = g_gid.find(g); if (it == g_gid.end()) return false;
        a = addrOf(it->second, 0); return true;
    }
    if (isa<ConstantPointerNull>(c)) { a = 0; return true; }
    if (auto* i = dyn_cast<ConstantInt>(c)) { a = i->getZExtValue(); return true; }
    if (auto* e = dyn_cast<ConstantExpr>(c))
    {
        switch (e->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            APInt off(64, 0);
            if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) return false;
            uint64_t b; if (!constAddr(e->getOperand(0), b)) return false;
            a = b + off.getSExtValue(); return true;
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return constAddr(e->getOperand(0), a);
        case Instruction::Add: case Instruction::Sub:
        { uint64_t x, y; if (!constAddr(e->getOperand(0), x) || !constAddr(e->getOperand(1), y)) return false; a = e->getOpcode() == Instruction::Add ? x + y : x - y; return true; }
        default: return false;
        }
    }
    return false;
}
static Val constVal(const Constant* c)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c)) 
    {
        if (auto* st = dyn_cast<StructType>(t)) return mkAgg(vector<Val>(st->getNumElements()));
        if (auto* at = dyn_cast<ArrayType>(t)) return mkAgg(vector<Val>(at->getNumElements()));
        return mkUndef();
    }
    if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) throw Unsupported("wide constant"); return mkInt(i->getZExtValue(), i->getBitWidth()); }
    if (auto* f = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy()) return mkDouble(f->getValueAPF().convertToDouble()); if (t->isFloatTy()) return mkDouble(f->getValueAPF().convertToFloat()); throw Unsupported("float type"); }
    if (t->isPointerTy()) { uint64_t a; if (!constAddr(c, a)) throw Unsupported("constant pointer"); return mkInt(a, 64); }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        vector<Val> v; for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
        return mkAgg(v);
    }
    if (t->isIntegerTy()) { uint64_t a; if (constAddr(c, a)) return mkInt(a, t->getIntegerBitWidth()); }
    throw Unsupported("constant expression");
}
static void storeConst(MemObj* o, uint64_t off, const Constant* c)
{
    Type* t = c->getType();
    uint64_t sz = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { for (uint64_t i = 0; i < sz; i++) o->st[off + i] = B_CONC; return; }
    if (isa<UndefValue>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef r = d->getRawDataValues();
        for (size_t i = 0; i < r.size(); i++) { o->b[off + i] = (uint8_t)r[i]; o->st[off + i] = B_CONC; }
        return;
    }
    if (auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL->getStructLayout(st);
        for (uint64_t i = 0; i < sz; i++) o->st[off + i] = B_CONC;
        for (unsigned i = 0; i < st->getNumElements(); i++) storeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) storeConst(o, off + i * es, c->getAggregateElement(i));
        return;
    }
    if (auto* f = dyn_cast<ConstantFP>(c))
    {
        if (t->isDoubleTy()) { putBytes(o, (uint32_t)off, f->getValueAPF().bitcastToAPInt().getZExtValue(), 8); return; }
        if (t->isFloatTy()) { putBytes(o, (uint32_t)off, f->getValueAPF().bitcastToAPInt().getZExtValue(), 4); return; }
    }
    if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { for (uint64_t k = 0; k < sz; k++) o->st[off + k] = B_CONC; return; } putBytes(o, (uint32_t)off, i->getZExtValue(), (uint32_t)DL->getTypeStoreSize(t)); return; }
    uint64_t a = 0;
    if (!constAddr(c, a)) a = 0;
    putBytes(o, (uint32_t)off, a, (uint32_t)sz);
}

#include "interp.h"
