// The interpreter proper.
#pragma once

struct Opnd { int reg = -1; Val c; };
struct GepStep { int op; int64_t scale; };
struct DInst
{
    unsigned opc; const Instruction* I; int dst = -1; vector<Opnd> ops; Type* ty = nullptr;
    int64_t off = 0; vector<GepStep> steps;
    unsigned pred = 0; unsigned w = 0;
    int b0 = -1, b1 = -1;
    vector<unsigned> idx;
    vector<std::pair<int, Opnd>> phi;       // (pred block, value)
    struct DFunc* callee = nullptr; const Function* fn = nullptr; bool indirect = false;
    vector<std::pair<uint64_t, int>> cases;
};
struct DBlock { vector<DInst> ins; };
struct DFunc { const Function* F; int nregs = 0; vector<DBlock> bl; int builtin = -1; bool decoded = false; string name; };
static std::unordered_map<const Function*, DFunc*> g_df;

struct Frame { vector<Val> r; vector<uint64_t> allocas; };
struct ExcState { uint64_t obj = 0; string type; const GlobalValue* ti = nullptr; };
static ExcState g_exc; static vector<ExcState> g_caught;
static std::map<uint64_t, ExcState> g_excByObj;
static int g_depth = 0;

static DFunc* getDF(const Function* f)
{
    auto& d = g_df[f];
    if (!d) { d = new DFunc; d->F = f; d->name = f->getName().str(); }
    return d;
}
static void decode(DFunc* d)
{
    d->decoded = true;
    const Function* F = d->F;
    std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, int> bb;
    for (auto& a : F->args()) reg[&a] = d->nregs++;
    int n = 0;
    for (auto& B : *F) { bb[&B] = n++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = d->nregs++; }
    auto op = [&](const Value* v) -> Opnd {
        Opnd o; auto it = reg.find(v);
        if (it != reg.end()) { o.reg = it->second; return o; }
        if (auto* c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
        return o; // metadata, inline asm
    };
    for (auto& B : *F)
    {
        d->bl.emplace_back(); auto& blk = d->bl.back();
        for (auto& I : B)
        {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            DInst x; x.opc = I.getOpcode(); x.I = &I; x.ty = I.getType();
            if (!I.getType()->isVoidTy()) x.dst = reg[&I];
            if (I.getType()->isIntegerTy()) x.w = I.getType()->getIntegerBitWidth(); else x.w = 64;
            if (auto* p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) x.phi.push_back({bb[p->getIncomingBlock(i)], op(p->getIncomingValue(i))}); }
            else if (auto* br = dyn_cast<BranchInst>(&I)) { x.b0 = bb[br->getSuccessor(0)]; if (br->isConditional()) { x.b1 = bb[br->getSuccessor(1)]; x.ops.push_back(op(br->getCondition())); } }
            else if (auto* sw = dyn_cast<SwitchInst>(&I)) { x.ops.push_back(op(sw->getCondition())); x.b0 = bb[sw->getDefaultDest()]; for (auto& c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bb[c.getCaseSuccessor()]}); }
            else if (auto* g = dyn_cast<GetElementPtrInst>(&I))
            {
                x.ops.push_back(op(g->getPointerOperand()));
                for (auto gt = gep_type_begin(g); gt != gep_type_end(g); ++gt)
                {
                    const Value* ix = gt.getOperand();
                    if (auto* st = gt.getStructTypeOrNull()) { x.off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sc = DL->getTypeAllocSize(gt.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) { x.off += ci->getSExtValue() * sc; continue; }
                    x.ops.push_back(op(ix)); x.steps.push_back({(int)x.ops.size() - 1, sc});
                }
            }
            else if (auto* cb = dyn_cast<CallBase>(&I))
            {
                for (auto& a : cb->args()) x.ops.push_back(op(a.get()));
                const Value* cv = cb->getCalledOperand();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                if (auto* f = dyn_cast<Function>(cv)) { x.fn = f; x.callee = getDF(f); }
                else { x.indirect = true; x.ops.push_back(op(cv)); }
                if (auto* inv = dyn_cast<InvokeInst>(&I)) { x.b0 = bb[inv->getNormalDest()]; x.b1 = bb[inv->getUnwindDest()]; }
            }
            else
            {
                for (auto& u : I.operands()) x.ops.push_back(op(u.get()));
                if (auto* c = dyn_cast<CmpInst>(&I)) { x.pred = c->getPredicate(); x.w = c->getOperand(0)->getType()->isIntegerTy() ? c->getOperand(0)->getType()->getIntegerBitWidth() : 64; }
                if (auto* e = dyn_cast<ExtractValueInst>(&I)) x.idx.assign(e->getIndices().begin(), e->getIndices().end());
                if (auto* e = dyn_cast<InsertValueInst>(&I)) x.idx.assign(e->getIndices().begin(), e->getIndices().end());
            }
            blk.ins.push_back(std::move(x));
        }
    }
}
// ---------------------------------------------------------------- integers
static uint64_t asBits(const Val& v)
{
    if (v.k == INT) return v.i;
    if (v.k == REAL) { double d = qToD(v.b->q); if (dToQ(d) == v.b->q) return dbits(d); throw Unsupported("bits of a non-representable real"); }
    if (v.k == FPC || v.k == SPEC) return dbits(v.d);
    if (v.k == UNDEF) throw Trap{"uninitialised", "use of an uninitialised value"};
    throw Unsupported("bits of a symbolic value");
}
static Z3_ast bv(const Val& v, unsigned w)
{
    if (v.k == SINT) return v.ast;
    if (v.k == SBOOL) return keep(Z3_mk_ite(Z, v.c->ast, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, w)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, w))));
    if (v.k == FPZ) return keep(Z3_mk_fpa_to_ieee_bv(Z, v.ast));
    return keep(Z3_mk_unsigned_int64(Z, asBits(v), Z3_mk_bv_sort(Z, w)));
}
static Val mkBoolAst(Z3_ast a)
{
    Z3_inc_ref(Z, a); Z3_ast s = Z3_simplify(Z, a); Z3_inc_ref(Z, s);
    Z3_lbool b = Z3_get_bool_value(Z, s);
    if (b == Z3_L_TRUE) return mkInt(1, 1);
    if (b == Z3_L_FALSE) return mkInt(0, 1);
    return mkBool(astCons(s));
}
static uint64_t concretize(const Val& v)
{
    if (v.k == INT) return v.i;
    if (v.k == SBOOL) return decideBool(v);
    if (v.k == UNDEF) throw Trap{"uninitialised", "use of an uninitialised value"};
    if (v.k != SINT) return asBits(v);
    for (int tries = 0; tries < 4096; tries++)
    {
        uint64_t x = 0;
        if (P.pos < P.dec.size()) x = std::stoull(P.dec[P.pos].payload);
        else
        {
            // ask for any value
            string nm = "!conc" + std::to_string(v.w);
            int cv = getVar(nm, 1, false, v.w);
            Cons* eq = astCons(Z3_mk_eq(Z, g_vars[cv].ast, v.ast));
            std::map<int, string> raw; Model m;
            int r = checkSat({eq}, &m, false, g_qTimeout, &raw);
            if (r != 1) throw Unsupported("cannot concretise");
            x = std::stoull(raw[cv]);
        }
        Cons* c = astCons(Z3_mk_eq(Z, v.ast, Z3_mk_unsigned_int64(Z, x, Z3_mk_bv_sort(Z, v.w))));
        if (choose({c, negCons(c)}, std::to_string(x)) == 0) return x;
    }
    throw Unsupported("too many values to enumerate");
}
static Val ibin(unsigned opc, const Val& a, const Val& b, unsigned w)
{
    if (a.k == INT && b.k == INT)
    {
        uint64_t x = a.i, y = b.i; int64_t sx = sext(x, w), sy = sext(y, w);
        switch (opc)
        {
        case Instruction::Add: return mkInt(x + y, w);
        case Instruction::Sub: return mkInt(x - y, w);
        case Instruction::Mul: return mkInt(x * y, w);
        case Instruction::UDiv: if (!y) throw Trap{"arith", "division by zero"}; return mkInt(x / y, w);
        case Instruction::URem: if (!y) throw Trap{"arith", "division by zero"}; return mkInt(x % y, w);
        case Instruction::SDiv: if (!sy) throw Trap{"arith", "division by zero"}; if (sy == -1) return mkInt(-x, w); return mkInt((uint64_t)(sx / sy), w);
        case Instruction::SRem: if (!sy) throw Trap{"arith", "division by zero"}; if (sy == -1) return mkInt(0, w); return mkInt((uint64_t)(sx % sy), w);
        case Instruction::And: return mkInt(x & y, w);
        case Instruction::Or: return mkInt(x | y, w);
        case Instruction::Xor: return mkInt(x ^ y, w);
        case Instruction::Shl: return y >= w ? mkUndef() : mkInt(x << y, w);
        case Instruction::LShr: return y >= w ? mkUndef() : mkInt(x >> y, w);
        case Instruction::AShr: return y >= w ? mkUndef() : mkInt((uint64_t)(sx >> y), w);
        }
    }
    if (w == 1 && (a.k == SBOOL || b.k == SBOOL))
    {
        if (a.k == UNDEF || b.k == UNDEF) return mkUndef();
        const Val& s = a.k == SBOOL ? a : b; const Val& o = a.k == SBOOL ? b : a;
        if (opc == Instruction::Xor && o.k == INT) return o.i ? mkBool(negCons(s.c)) : s;
        if (opc == Instruction::And && o.k == INT) return o.i ? s : mkInt(0, 1);
        if (opc == Instruction::Or && o.k == INT) return o.i ? mkInt(1, 1) : s;
        if (s.k == SBOOL && o.k == SBOOL && (opc == Instruction::And || opc == Instruction::Or))
        {
            if (s.c->fid >= 0 && s.c->fid == o.c->fid) return mkBool(andCons(s.c, o.c, opc == Instruction::Or));
            if (g_fpMode || (s.c->fid < 0 && o.c->fid < 0)) return mkBool(andCons(s.c, o.c, opc == Instruction::Or));
        }
        bool x = decideBool(a);
        if (opc == Instruction::And) return x ? b : mkInt(0, 1);
        if (opc == Instruction::Or) return x ? mkInt(1, 1) : b;
        if (opc == Instruction::Xor) { if (!x) return b; if (b.k == INT) return mkInt(!b.i, 1); return mkBool(negCons(b.c)); }
    }
    if (a.k == UNDEF || b.k == UNDEF)
    {
        // masking with zero keeps the known part only in trivial cases
        if (opc == Instruction::And && ((a.k == INT && a.i == 0) || (b.k == INT && b.i == 0))) return mkInt(0, w);
        return mkUndef();
    }
    if (a.k == REAL || a.k == SPEC || a.k == FPC || b.k == REAL || b.k == SPEC || b.k == FPC)
    {
        // integer view of a double
        if (a.k == RAT || b.k == RAT) throw Unsupported("integer operation on a symbolic real");
        if (a.k != SINT && b.k != SINT) return ibin(opc, mkInt(asBits(a), w), mkInt(asBits(b), w), w);
    }
    Z3_ast x = bv(a, w), y = bv(b, w);
    switch (opc)
    {
    case Instruction::Add: return mkSint(Z3_mk_bvadd(Z, x, y), w);
    case Instruction::Sub: return mkSint(Z3_mk_bvsub(Z, x, y), w);
    case Instruction::Mul: return mkSint(Z3_mk_bvmul(Z, x, y), w);
    case Instruction::And: return mkSint(Z3_mk_bvand(Z, x, y), w);
    case Instruction::Or: return mkSint(Z3_mk_bvor(Z, x, y), w);
    case Instruction::Xor: return mkSint(Z3_mk_bvxor(Z, x, y), w);
    case Instruction::Shl: return mkSint(Z3_mk_bvshl(Z, x, y), w);
    case Instruction::LShr: return mkSint(Z3_mk_bvlshr(Z, x, y), w);
    case Instruction::AShr: return mkSint(Z3_mk_bvashr(Z, x, y), w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
    {
        Cons* z = astCons(Z3_mk_eq(Z, y, Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, w))));
        if (choose({negCons(z), z}) == 1) throw Trap{"arith", "division by zero"};
        return mkSint(opc == Instruction::UDiv ? Z3_mk_bvudiv(Z, x, y) : opc == Instruction::URem ? Z3_mk_bvurem(Z, x, y) : opc == Instruction::SDiv ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y), w);
    }
    }
    throw Unsupported("integer op");
}
static Val icmpV(unsigned p, const Val& a, const Val& b, unsigned w)
{
    if (a.k == INT && b.k == INT)
    {
        uint64_t x = a.i, y = b.i; int64_t sx = sext(x, w), sy = sext(y, w); bool r = false;
        switch (p)
        {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
        case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
        }
        return mkInt(r, 1);
    }
    if (a.k == UNDEF || b.k == UNDEF) return mkUndef();
    if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE))
    {
        Val x = ibin(Instruction::Xor, a, b, 1);
        return p == CmpInst::ICMP_NE ? x : ibin(Instruction::Xor, x, mkInt(1, 1), 1);
    }
    if (a.k == RAT || b.k == RAT) throw Unsupported("integer comparison of a symbolic real");
    if (a.k != SINT && b.k != SINT && a.k != FPZ && b.k != FPZ && a.k != SBOOL && b.k != SBOOL) return icmpV(p, mkInt(asBits(a), w), mkInt(asBits(b), w), w);
    Z3_ast x = bv(a, w), y = bv(b, w), r = nullptr;
    switch (p)
    {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: r = Z3_mk_not(Z, Z3_mk_eq(Z, x, y)); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    }
    return mkBoolAst(r);
}
static Val ovf(unsigned kind, const Val& a, const Val& b, unsigned w) // 0 sadd 1 ssub 2 smul 3 uadd 4 usub 5 umul
{
    if (a.k == UNDEF || b.k == UNDEF) return mkAgg({mkUndef(), mkUndef()});
    unsigned opc = kind % 3 == 0 ? Instruction::Add : kind % 3 == 1 ? Instruction::Sub : Instruction::Mul;
    if (a.k == INT && b.k == INT)
    {
        __int128 x, y;
        if (kind < 3) { x = sext(a.i, w); y = sext(b.i, w); } else { x = (unsigned __int128)a.i; y = (unsigned __int128)b.i; }
        __int128 r = kind % 3 == 0 ? x + y : kind % 3 == 1 ? x - y : x * y;
        bool o;
        if (kind < 3) o = r != (__int128)sext((uint64_t)r, w);
        else o = kind == 5 ? ((unsigned __int128)r >> w) != 0 : (r < 0 || (unsigned __int128)r != (unsigned __int128)maskw((uint64_t)r, w));
        return mkAgg({mkInt((uint64_t)r, w), mkInt(o, 1)});
    }
    Z3_ast x = bv(a, w), y = bv(b, w);
    bool sg = kind < 3;
    auto ext = [&](Z3_ast v) { return sg ? Z3_mk_sign_ext(Z, w, v) : Z3_mk_zero_ext(Z, w, v); };
    Z3_ast wx = ext(x), wy = ext(y);
    Z3_ast wr = kind % 3 == 0 ? Z3_mk_bvadd(Z, wx, wy) : kind % 3 == 1 ? Z3_mk_bvsub(Z, wx, wy) : Z3_mk_bvmul(Z, wx, wy);
    Z3_inc_ref(Z, wr);
    Z3_ast lo = Z3_mk_extract(Z, w - 1, 0, wr); Z3_inc_ref(Z, lo);
    Val o = mkBoolAst(Z3_mk_not(Z, Z3_mk_eq(Z, ext(lo), wr)));
    return mkAgg({ibin(opc, a, b, w), o});
}
static uint64_t ptr(const Val& v, const char* what)
{
    if (v.k == INT) return v.i;
    if (v.k == UNDEF) throw Trap{"uninitialised", string("uninitialised pointer: ") + what};
    return concretize(v);
}

struct Ret { Val v; bool unwind = false; };
// conversion to single precision: a relative error of up to 2^-24
static Val toSingle(const Val& v);
static Ret execF(DFunc* d, vector<Val>& args);
#include "builtins.h"

static bool tiMatches(const ExcState& e, const string& catchName)
{
    static const std::map<string, string> base = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    string t = e.type;
    for (int i = 0; i < 10; i++)
    {
        if (t == catchName) return true;
        auto it = base.find(t);
        if (it != base.end()) { t = it->second; continue; }
        // typeinfo defined in the module: struct { vptr, name, base }
        auto* g = M->getGlobalVariable(t, true);
        if (!g || !g->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!cs || cs->getNumOperands() < 3) return false;
        auto* b = dyn_cast<GlobalValue>(cs->getOperand(2)->stripPointerCasts());
        if (!b) return false;
        t = b->getName().str();
    }
    return false;
}
static void setAgg(Val& agg, const vector<unsigned>& idx, size_t k, const Val& v)
{
    Val n = mkAgg(agg.k == AGG ? agg.b->agg : vector<Val>());
    if (idx[k] >= n.b->agg.size()) n.b->agg.resize(idx[k] + 1);
    if (k + 1 == idx.size()) n.b->agg[idx[k]] = v;
    else setAgg(n.b->agg[idx[k]], idx, k + 1, v);
    agg = n;
}
static Val freezeUndef(Type* t)
{
    if (t->isDoubleTy() || t->isFloatTy()) return mkDouble(0);
    if (t->isIntegerTy()) return mkInt(0, t->getIntegerBitWidth());
    if (t->isPointerTy()) return mkInt(0, 64);
    return mkUndef();
}
static Ret execF(DFunc* d, vector<Val>& args)
{
    if (!d->decoded) { decode(d); string dm = demangle(d->name); if (dm.find("libnurbs::") != string::npos && dm.find("std::") != 0) g_functions.insert(dm); }
    if (++g_depth > 400) { g_depth = 0; throw Trap{"recursion", "unbounded recursion"}; }
    struct DepthGuard { ~DepthGuard() { g_depth--; } } dg;
    Frame fr; fr.r.resize(d->nregs);
    for (size_t i = 0; i < args.size() && i < d->F->arg_size(); i++) fr.r[i] = args[i];
    struct FreeGuard { Frame& f; ~FreeGuard() { for (auto a : f.allocas) { uint64_t id = a >> 32; if (id < g_mem.size() && g_mem[id]) { g_mem[id]->alive = false; g_mem[id]->b = {}; g_mem[id]->st = {}; g_mem[id]->cells.clear(); } } } } fg{fr};
    int cur = 0, prev = -1;
    auto val = [&](const Opnd& o) -> const Val& { return o.reg >= 0 ? fr.r[o.reg] : o.c; };
    for (;;)
    {
        DBlock& blk = d->bl[cur];
        size_t ip = 0;
        // phis in parallel
        if (prev >= 0)
        {
            vector<std::pair<int, Val>> pv;
            while (ip < blk.ins.size() && blk.ins[ip].opc == Instruction::PHI)
            {
                for (auto& p : blk.ins[ip].phi) if (p.first == prev) { pv.push_back({blk.ins[ip].dst, val(p.second)}); break; }
                ip++;
            }
            for (auto& p : pv) fr.r[p.first] = std::move(p.second);
        }
        bool jumped = false;
        for (; ip < blk.ins.size() && !jumped; ip++)
        {
            DInst& x = blk.ins[ip];
            g_st.instrs++;
            if (++g_pathInstr > g_maxInstr) throw Unsupported("instruction budget");
            if ((g_pathInstr & 0xfff) == 0 && now() > g_deadline) throw BudgetOut{"time"};
            switch (x.opc)
            {
            case Instruction::Ret: { Ret r; if (!x.ops.empty()) r.v = val(x.ops[0]); return r; }
            case Instruction::Br:
                prev = cur;
                if (x.ops.empty()) cur = x.b0;
                else
                {
                    const Val& c = val(x.ops[0]);
                    if (c.k == UNDEF) throw Trap{"uninitialised", "branch on an uninitialised value in " + demangle(d->name)};
                    cur = decideBool(c) ? x.b0 : x.b1;
                }
                jumped = true; break;
            case Instruction::Switch:
            {
                if (const Val& sv = val(x.ops[0]); sv.k == SINT)
                {
                    // one decision per destination
                    prev = cur; auto to = x.b0; std::vector<decltype(x.b0)> seen;
                    for (auto& c : x.cases)
                    {
                        if (c.second == x.b0 || std::find(seen.begin(), seen.end(), c.second) != seen.end()) continue;
                        seen.push_back(c.second); Val in = mkInt(0, 1);
                        for (auto& k : x.cases) if (k.second == c.second) in = ibin(Instruction::Or, in, icmpV(CmpInst::ICMP_EQ, sv, mkInt(k.first, sv.w), sv.w), 1);
                        if (decideBool(in)) { to = c.second; break; }
                    }
                    cur = to; jumped = true; break;
                }
                uint64_t v = concretize(val(x.ops[0]));
                prev = cur; cur = x.b0;
                for (auto& c : x.cases) if (c.first == v) { cur = c.second; break; }
                jumped = true; break;
            }
            case Instruction::Unreachable: throw Trap{"unreachable", "unreachable code executed in " + demangle(d->name)};
            case Instruction::Alloca:
            {
                auto* ai = cast<AllocaInst>(x.I);
                uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType()) * concretize(val(x.ops[0]));
                uint64_t a = alloc(n, 1); fr.allocas.push_back(a); fr.r[x.dst] = mkInt(a, 64); break;
            }
            case Instruction::Load:
            {
                uint32_t off; uint64_t a = ptr(val(x.ops[0]), "load");
                MemObj* o = access(a, DL->getTypeStoreSize(x.ty), "read", off);
                fr.r[x.dst] = loadVal(o, off, x.ty); break;
            }
            case Instruction::Store:
            {
                uint32_t off; uint64_t a = ptr(val(x.ops[1]), "store");
                Type* t = x.I->getOperand(0)->getType();
                MemObj* o = access(a, DL->getTypeStoreSize(t), "write", off);
                if (o->ro) throw Trap{"memory", "write to constant"};
                storeVal(o, off, t, val(x.ops[0])); break;
            }
            case Instruction::GetElementPtr:
            {
                const Val& b = val(x.ops[0]);
                if (b.k == UNDEF) { fr.r[x.dst] = mkUndef(); break; }
                uint64_t a = ptr(b, "gep") + x.off; bool und = false;
                for (auto& s : x.steps)
                {
                    const Val& ix = val(x.ops[s.op]);
                    if (ix.k == UNDEF) { und = true; break; }
                    uint64_t i = concretize(ix); unsigned w = ix.w ? ix.w : 64;
                    a += (uint64_t)(sext(i, w) * s.scale);
                }
                fr.r[x.dst] = und ? mkUndef() : mkInt(a, 64); break;
            }
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
            case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
                fr.r[x.dst] = ibin(x.opc, val(x.ops[0]), val(x.ops[1]), x.w); break;
            case Instruction::FAdd: fr.r[x.dst] = fbin('+', val(x.ops[0]), val(x.ops[1])); break;
            case Instruction::FSub: fr.r[x.dst] = fbin('-', val(x.ops[0]), val(x.ops[1])); break;
            case Instruction::FMul: fr.r[x.dst] = fbin('*', val(x.ops[0]), val(x.ops[1])); break;
            case Instruction::FDiv: fr.r[x.dst] = fbin('/', val(x.ops[0]), val(x.ops[1])); break;
            case Instruction::FRem: fr.r[x.dst] = fbin('%', val(x.ops[0]), val(x.ops[1])); break;
            case Instruction::FNeg: fr.r[x.dst] = fneg(val(x.ops[0])); break;
            case Instruction::ICmp: fr.r[x.dst] = icmpV(x.pred, val(x.ops[0]), val(x.ops[1]), x.w); break;
            case Instruction::FCmp: fr.r[x.dst] = fcmp(x.pred, val(x.ops[0]), val(x.ops[1])); break;
            case Instruction::Select:
            {
                const Val &c = val(x.ops[0]), &a = val(x.ops[1]), &b = val(x.ops[2]);
                if (c.k == UNDEF) { fr.r[x.dst] = mkUndef(); break; }
                if (c.k == INT) { fr.r[x.dst] = c.i ? a : b; break; }
                if (x.w == 1 && x.ty->isIntegerTy() && c.k == SBOOL)
                {
                    // logical and / or
                    if (b.k == INT && b.i == 0) { fr.r[x.dst] = ibin(Instruction::And, c, a, 1); break; }
                    if (a.k == INT && a.i == 1) { fr.r[x.dst] = ibin(Instruction::Or, c, b, 1); break; }
                }
                if (g_lazyMax && !g_fpMode && c.k == SBOOL && c.c->fid >= 0 && x.ty->isDoubleTy() && (a.k == RAT || a.k == REAL) && (b.k == RAT || b.k == REAL))
                {
                    // select(a < b, b, a) and friends
                    RatFun df = radd(toRat(a), toRat(b), -1);
                    Poly p = psub(df.num); mpq_class f; Poly pr = p.zero() ? p : pprim(p, f);
                    if (!p.isConst() && g_fac.intern(pr) == c.c->fid)
                    {
                        uint8_t m = c.c->mask; if (f < 0) m = uint8_t((m & S_ZERO) | (m & S_NEG ? S_POS : 0) | (m & S_POS ? S_NEG : 0));
                        // cond true <=> sign(a-b) in m; picks a when true
                        if (!(m & S_NEG) && (m & S_POS)) { fr.r[x.dst] = lazyMax(a, b, true); break; }
                        if (!(m & S_POS) && (m & S_NEG)) { fr.r[x.dst] = lazyMax(a, b, false); break; }
                    }
                }
                if (g_fpMode && x.ty->isDoubleTy() && c.k == SBOOL && (a.k == FPZ || a.k == FPC) && (b.k == FPZ || b.k == FPC))
                { fr.r[x.dst] = fpSimp(Z3_mk_ite(Z, c.c->ast, fpAst(a), fpAst(b))); break; }
                if (c.k == SBOOL && x.ty->isIntegerTy() && (a.k == INT || a.k == SINT) && (b.k == INT || b.k == SINT) && c.c->fid < 0)
                { fr.r[x.dst] = mkSint(Z3_mk_ite(Z, c.c->ast, bv(a, x.w), bv(b, x.w)), x.w); break; }
                fr.r[x.dst] = decideBool(c) ? val(x.ops[1]) : val(x.ops[2]); break;
            }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
            {
                const Val& a = val(x.ops[0]); unsigned sw = x.I->getOperand(0)->getType()->getIntegerBitWidth(), w = x.w;
                if (w > 64 || sw > 64) throw Unsupported("wide integer");
                if (a.k == UNDEF) { fr.r[x.dst] = a; break; }
                if (a.k == INT) { fr.r[x.dst] = x.opc == Instruction::SExt ? mkInt((uint64_t)sext(a.i, sw), w) : mkInt(a.i, w); break; }
                if (a.k == SBOOL)
                {
                    if (a.c->fid < 0)
                    {
                        Z3_ast one = Z3_mk_unsigned_int64(Z, x.opc == Instruction::SExt ? maskw(~0ull, w) : 1, Z3_mk_bv_sort(Z, w)), zero = Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, w));
                        fr.r[x.dst] = mkSint(Z3_mk_ite(Z, a.c->ast, one, zero), w); break;
                    }
                    fr.r[x.dst] = mkInt(decideBool(a) ? (x.opc == Instruction::SExt ? ~0ull : 1) : 0, w); break;
                }
                if (a.k == SINT)
                {
                    Val r = mkSint(x.opc == Instruction::Trunc ? Z3_mk_extract(Z, w - 1, 0, a.ast) : x.opc == Instruction::ZExt ? Z3_mk_zero_ext(Z, w - sw, a.ast) : Z3_mk_sign_ext(Z, w - sw, a.ast), w);
                    fr.r[x.dst] = (w == 1 && r.k == SINT) ? mkBoolAst(Z3_mk_eq(Z, r.ast, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)))) : r; break;
                }
                fr.r[x.dst] = mkInt(asBits(a), w); break;
            }
            case Instruction::SIToFP: case Instruction::UIToFP:
            {
                const Val& a = val(x.ops[0]); unsigned sw = x.I->getOperand(0)->getType()->getIntegerBitWidth();
                if (a.k == UNDEF) { fr.r[x.dst] = a; break; }
                uint64_t u = concretize(a);
                if (x.opc == Instruction::SIToFP) fr.r[x.dst] = mkDouble((double)sext(u, sw)); else fr.r[x.dst] = mkDouble((double)u);
                break;
            }
            case Instruction::FPToSI: case Instruction::FPToUI:
            {
                const Val& a = val(x.ops[0]);
                if (a.k == UNDEF) { fr.r[x.dst] = a; break; }
                double v;
                if (a.k == FPC || a.k == SPEC) v = a.d; else if (a.k == REAL) { mpz_class z = a.b->q.get_num() / a.b->q.get_den(); v = z.get_d(); } else throw Unsupported("real to integer conversion of a symbolic value");
                if (v != v || v >= 9.3e18 || v <= -9.3e18) throw Trap{"arith", "float to integer conversion out of range"};
                fr.r[x.dst] = mkInt((uint64_t)(int64_t)v, x.w); break;
            }
            case Instruction::FPExt: case Instruction::FPTrunc:
                fr.r[x.dst] = x.opc == Instruction::FPTrunc ? toSingle(val(x.ops[0])) : val(x.ops[0]); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: fr.r[x.dst] = val(x.ops[0]); if (fr.r[x.dst].k == INT) fr.r[x.dst] = mkInt(fr.r[x.dst].i, x.w); break;
            case Instruction::BitCast:
            {
                Val a = val(x.ops[0]);
                if (x.ty->isDoubleTy() && a.k == INT) a = mkDouble(bitsd(a.i));
                else if (x.ty->isIntegerTy() && (a.k == REAL || a.k == FPC || a.k == SPEC)) { if (a.k == REAL) { double dd = qToD(a.b->q); if (dToQ(dd) == a.b->q) a = mkInt(dbits(dd), 64); } else a = mkInt(dbits(a.d), 64); }
                else if (x.ty->isIntegerTy() && a.k == FPZ) a = mkSint(Z3_mk_fpa_to_ieee_bv(Z, a.ast), 64);
                else if (x.ty->isDoubleTy() && a.k == SINT) { if (!g_fpMode) throw Unsupported("bits to real"); a = mkFpz(Z3_mk_fpa_to_fp_bv(Z, a.ast, FPSort)); }
                fr.r[x.dst] = a; break;
            }
            case Instruction::Freeze: { const Val& a = val(x.ops[0]); fr.r[x.dst] = a.k == UNDEF ? freezeUndef(x.ty) : a; break; }
            case Instruction::ExtractValue:
            {
                Val a = val(x.ops[0]);
                for (unsigned k : x.idx) { if (a.k != AGG) { a = mkUndef(); break; } Val t = a.b->agg[k]; a = t; }
                fr.r[x.dst] = a; break;
            }
            case Instruction::InsertValue:
            {
                Val a = val(x.ops[0]); if (a.k != AGG) a = mkAgg({});
                setAgg(a, x.idx, 0, val(x.ops[1])); fr.r[x.dst] = a; break;
            }
            case Instruction::ExtractElement: { const Val& a = val(x.ops[0]); uint64_t i = concretize(val(x.ops[1])); fr.r[x.dst] = a.k == AGG ? a.b->agg[i] : mkUndef(); break; }
            case Instruction::InsertElement: { Val a = val(x.ops[0]); unsigned n = cast<FixedVectorType>(x.ty)->getNumElements(); vector<Val> e = a.k == AGG ? a.b->agg : vector<Val>(n); e.resize(n); e[concretize(val(x.ops[2]))] = val(x.ops[1]); fr.r[x.dst] = mkAgg(e); break; }
            case Instruction::Call: case Instruction::Invoke:
            {
                DFunc* cal = x.callee; 
                vector<Val> av; size_t na = x.ops.size() - (x.indirect ? 1 : 0);
                av.reserve(na);
                for (size_t i = 0; i < na; i++) av.push_back(val(x.ops[i]));
                if (x.indirect)
                {
                    if (cast<CallBase>(x.I)->isInlineAsm()) { if (x.dst >= 0) fr.r[x.dst] = mkUndef(); break; }
                    uint64_t a = ptr(val(x.ops[na]), "call"); uint64_t id = a >> 32;
                    if ((uint32_t)a || id == 0 || id >= g_gByid.size() || !g_gByid[id] || !isa<Function>(g_gByid[id])) throw Trap{"memory", "call through a bad pointer"};
                    cal = getDF(cast<Function>(g_gByid[id]));
                }
                Ret r;
                if (!callBuiltin(cal, x, av, r))
                {
                    if (cal->F->isDeclaration()) throw Unsupported("external function " + cal->name);
                    r = execF(cal, av);
                }
                if (!r.unwind)
                {
                    if (x.dst >= 0) fr.r[x.dst] = r.v;
                    if (x.opc == Instruction::Invoke) { prev = cur; cur = x.b0; jumped = true; }
                    break;
                }
                if (x.opc == Instruction::Call)
                {
                    if (d->F->doesNotThrow()) throw Trap{"exception", "exception escapes a noexcept function " + demangle(d->name)};
                    return r;
                }
                // unwinding into a landing pad?
                auto* lp = cast<InvokeInst>(x.I)->getUnwindDest()->getLandingPadInst();
                bool take = lp->isCleanup(); uint64_t sel = 0;
                for (unsigned i = 0; i < lp->getNumClauses(); i++)
                {
                    if (!lp->isCatch(i)) { if (isa<ConstantAggregateZero>(lp->getClause(i)) || cast<ArrayType>(lp->getClause(i)->getType())->getNumElements() == 0) { take = true; sel = (uint64_t)-1; break; } continue; }
                    auto* cl = lp->getClause(i);
                    if (isa<ConstantPointerNull>(cl)) { take = true; sel = 1; break; }
                    auto* g = cast<GlobalValue>(cl->stripPointerCasts());
                    if (tiMatches(g_exc, g->getName().str())) { take = true; sel = g_gid[g]; break; }
                }
                if (!take) return r;
                prev = cur; cur = x.b1; jumped = true;
                {
                    // the landingpad result
                    for (auto& li : d->bl[cur].ins) if (li.opc == Instruction::LandingPad) { fr.r[li.dst] = mkAgg({mkInt(g_exc.obj, 64), mkInt(sel, 32)}); break; }
                }
                break;
            }
            case Instruction::LandingPad: break;
            case Instruction::Resume:
            {
                const Val& a = val(x.ops[0]);
                if (a.k == AGG && a.b->agg[0].k == INT) { auto it = g_excByObj.find(a.b->agg[0].i); if (it != g_excByObj.end()) g_exc = it->second; }
                Ret r; r.unwind = true; return r;
            }
            case Instruction::PHI: break;
            case Instruction::Fence: break;
            case Instruction::AtomicRMW:
            {
                auto* rw = cast<AtomicRMWInst>(x.I); uint32_t off; Type* t = x.ty;
                MemObj* o = access(ptr(val(x.ops[0]), "atomic"), DL->getTypeStoreSize(t), "atomic", off);
                Val old = loadVal(o, off, t); Val n;
                switch (rw->getOperation()) { case AtomicRMWInst::Add: n = ibin(Instruction::Add, old, val(x.ops[1]), x.w); break; case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, old, val(x.ops[1]), x.w); break; case AtomicRMWInst::Xchg: n = val(x.ops[1]); break; default: throw Unsupported("atomic"); }
                storeVal(o, off, t, n); fr.r[x.dst] = old; break;
            }
            default: throw Unsupported(string("instruction ") + x.I->getOpcodeName());
            }
        }
        if (!jumped) throw Unsupported("fell off a block");
    }
}
#include "main.h"
