// Path loop and result output.
#pragma once
static void freeDyn()
{
    for (size_t i = 0; i < g_mem.size(); i++) { delete g_mem[i]; g_mem[i] = nullptr; }
    g_mem.resize(g_firstDyn);
}
static string jstr(const string& s)
{
    string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\"";
}
static void emit(const string& status, double t0, const string& fnName)
{
    std::ostringstream o;
    auto m2 = [&](const std::map<string, string>& m) { o << "{"; bool f = true; for (auto& kv : m) { if (!f) o << ","; f = false; o << jstr(kv.first) << ":" << jstr(kv.second); } o << "}"; };
    o << "{\"status\":" << jstr(status) << ",\"fn\":" << jstr(fnName) << ",\"wall_s\":" << now() - t0 << ",\"solver_s\":" << g_st.solver_s << ",\"paths\":" << g_st.paths << ",\"forks\":" << g_st.forks
      << ",\"instrs\":" << g_st.instrs << ",\"q_sat\":" << g_st.q_sat << ",\"q_unsat\":" << g_st.q_unsat << ",\"q_unknown\":" << g_st.q_unknown << ",\"vc_total\":" << g_st.vc_total << ",\"vc_trivial\":" << g_st.vc_trivial
      << ",\"vc_proved\":" << g_st.vc_proved << ",\"vc_failed\":" << g_st.vc_failed << ",\"vc_unknown\":" << g_st.vc_unknown << ",\"identities\":" << g_st.identities << ",\"nf_only\":" << g_nf << ",\"infeasible\":" << g_st.infeasible
      << ",\"assume_dead\":" << g_assumeDead << ",\"tainted\":" << g_tainted << ",\"paths_with_vc\":" << g_pathsWithVc << ",\"pending\":" << g_work.size() << ",\"max_terms\":" << g_st.maxTerms;
    o << ",\"unsupported\":{"; bool f = true; for (auto& kv : g_unsupported) { if (!f) o << ","; f = false; o << jstr(kv.first) << ":" << kv.second; }
    o << "},\"unknown_vc\":["; f = true; for (auto& s : g_unknownVc) { if (!f) o << ","; f = false; o << jstr(s); }
    o << "],\"reach\":{"; f = true; for (auto& kv : g_reach) { if (!f) o << ","; f = false; o << jstr(kv.first) << ":" << kv.second; }
    o << "},\"functions\":["; f = true; for (auto& s : g_functions) { if (!f) o << ","; f = false; o << jstr(s); }
    o << "],\"violations\":["; f = true;
    for (auto& v : g_viol) { if (!f) o << ","; f = false; o << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"exact\":" << (v.exact ? "true" : "false") << ",\"in\":"; m2(v.in); o << "}"; }
    o << "],\"witnesses\":["; f = true;
    for (auto& w : g_wit) { if (!f) o << ","; f = false; o << "{\"in\":"; m2(w.in); o << ",\"out\":"; m2(w.out); o << "}"; }
    o << "]}\n";
    std::cout << o.str() << std::flush;
}
static void takeWitness()
{
    Witness w; std::map<int, string> raw; bool exact;
    bool other = false; mpq_class q; bool complete = true;
    for (auto& in : g_inputs) { if (g_vars[in.var].kind != 0) other = true; else if (!P.model.get(in.var, q)) complete = false; }
    Model m = P.model;
    if (other || !complete || !holdsAll(m, P.cons))
    {
        Model fm; int r = checkSat({}, &fm, true, 5000, &raw);
        if (r != 1) return;
        m = fm;
        other = true;
        for (auto& in : g_inputs) if (g_vars[in.var].kind == 0 && !m.get(in.var, q) && !raw.count(in.var)) { mpq_class dv = in.bounded ? mpq_class((in.lo + in.hi) / 2) : mpq_class(0); m.set(in.var, dv); }
    }
    bool nice = true; for (auto c : P.prefs) if (evalCons(c, m) != 1) nice = false;
    if (!nice)
    {
        std::map<int, string> raw2; Model fm = P.model; int r = checkSat(P.prefs, &fm, true, 3000, &raw2);
        if (r == 1)
        {
            raw = raw2; m = fm;
            for (auto& in : g_inputs) if (g_vars[in.var].kind == 0 && !m.get(in.var, q) && !raw.count(in.var)) { mpq_class dv = in.bounded ? mpq_class((in.lo + in.hi) / 2) : mpq_class(0); m.set(in.var, dv); }
        }
    }
    w.in = dumpInputs(m, raw, exact);
    for (auto& o : g_outs)
    {
        string key = o.name + "." + std::to_string(o.idx);
        if (o.v.k == REAL) w.out[key] = hexd(qToD(o.v.b->q));
        else if (o.v.k == FPC) w.out[key] = hexd(o.v.d);
        else if (o.v.k == RAT) { mpq_class q2; if (evalRat(o.v.b->r, m, q2)) w.out[key] = hexd(qToD(q2)); }
        else if (o.v.k == SPEC) w.out[key] = o.v.d != o.v.d ? "nan" : hexd(o.v.d);
    }
    g_wit.push_back(w);
}
static void z3err(Z3_context c, Z3_error_code e) { throw Unsupported(string("z3: ") + Z3_get_error_msg(c, e)); }

int main(int argc, char** argv)
{
    string bc, fnName; double tlimit = 120; std::vector<string> pos;
    for (int i = 1; i < argc; i++)
    {
        string a = argv[i];
        if (a.rfind("--time=", 0) == 0) tlimit = std::stod(a.substr(7));
        else if (a == "--fp") g_fpMode = true;
        else if (a == "--nolazymax") g_lazyMax = false;
        else if (a.rfind("--qt=", 0) == 0) g_qTimeout = std::stoul(a.substr(5));
        else if (a.rfind("--vct=", 0) == 0) g_vcTimeout = std::stoul(a.substr(6));
        else if (a.rfind("--wit=", 0) == 0) g_witnesses = std::stoi(a.substr(6));
        else if (a.rfind("--maxpaths=", 0) == 0) g_maxPaths = std::stoull(a.substr(11));
        else if (a.rfind("--maxterms=", 0) == 0) g_maxTerms = std::stoull(a.substr(11));
        else if (a == "--trace") g_trace = true;
        else pos.push_back(a);
    }
    if (pos.size() < 2) { fprintf(stderr, "usage: symx module.bc function [int args]\n"); return 2; }
    bc = pos[0]; fnName = pos[1];
    for (size_t i = 2; i < pos.size(); i++) g_args.push_back(std::stoll(pos[i]));
    double t0 = now(); g_deadline = t0 + tlimit;
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print("symx", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, z3err);
    RealSort = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, RealSort));
    FPSort = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, FPSort)); RNE = keep(Z3_mk_fpa_rne(Z));
    // permanent object ids: 0 is null, 1 reserved (catch-all selector)
    g_gByid.assign(2, nullptr);
    auto reg = [&](const GlobalValue& g) { g_gid[&g] = (uint32_t)g_gByid.size(); g_gByid.push_back(&g); };
    for (auto& g : M->globals()) reg(g);
    for (auto& f : M->functions()) reg(f);
    g_firstDyn = g_gByid.size(); g_mem.assign(g_firstDyn, nullptr);
    Function* F = M->getFunction(fnName);
    if (!F || F->isDeclaration()) { fprintf(stderr, "symx: no function %s\n", fnName.c_str()); return 2; }
    vector<const Function*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    {
        vector<std::pair<uint64_t, const Function*>> cs;
        for (auto& op : ca->operands()) { auto* cs1 = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs1->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cs1->getOperand(0))->getZExtValue(), f}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) ctors.push_back(c.second);
    }
    string status = "complete";
    g_work.push_back({});
    try
    {
        while (!g_work.empty())
        {
            if (g_st.paths >= g_maxPaths) { status = "path-limit"; break; }
            if ((int)g_violMsgs.size() >= g_maxViol) { status = "violations"; break; }
            Work w = std::move(g_work.back()); g_work.pop_back();
            P = PathState{}; P.dec = std::move(w.dec); P.model = std::move(w.model);
            g_sub = Subst{}; g_defCount = 0; g_sqrtCache.clear(); g_asked.clear(); g_outs.clear(); g_inputs.clear(); g_acosArg.clear(); g_tokens.clear(); g_exc = {}; g_caught.clear(); g_excByObj.clear();
            g_vcThisPath = 0; g_pathInstr = 0; g_depth = 0;
            string why;
            try
            {
                vector<Val> none;
                for (auto* c : ctors) { Ret r = execF(getDF(c), none); if (r.unwind) throw Unsupported("exception in a static initialiser"); }
                vector<Val> av;
                for (size_t i = 0; i < F->arg_size(); i++) av.push_back(mkInt(i < g_args.size() ? (uint64_t)g_args[i] : 0, F->getArg(i)->getType()->getIntegerBitWidth()));
                Ret r = execF(getDF(F), av);
                if (r.unwind) throw Trap{"exception", "exception escapes: " + demangle(g_exc.type)};
                g_st.paths++; if (g_vcThisPath) g_pathsWithVc++;
                if (P.tainted) g_tainted++;
                if ((int)g_wit.size() < g_witnesses && !P.tainted) takeWitness();
            }
            catch (PathEnd& e) { why = e.why; if (e.why == "stop") { g_st.paths++; if (g_vcThisPath) g_pathsWithVc++; } }
            catch (Trap& t)
            {
                why = t.kind + ": " + t.msg; g_st.vc_total++; g_vcThisPath++;
                try
                {
                    bool ok = true; Model m = P.model;
                    if (!holdsAll(m, P.cons)) { Model fm = P.model; int r = checkSat({}, &fm, true, g_vcTimeout); if (r == 0) ok = false; else if (r == 1) m = fm; }
                    if (ok) report(t.kind, t.msg, nullptr, m, true, nullptr); else g_st.infeasible++;
                }
                catch (Unsupported& u) { g_unsupported[u.what()]++; }
            }
            catch (Unsupported& u) { g_unsupported[u.what()]++; why = u.what(); }
            if (g_trace) fprintf(stderr, "path %llu dec=%zu cons=%zu instr=%llu t=%.2f work=%zu %s\n", (unsigned long long)g_st.paths, P.dec.size(), P.cons.size(), (unsigned long long)g_pathInstr, now() - t0, g_work.size(), why.c_str());
            freeDyn();
        }
    }
    catch (BudgetOut& b) { status = "budget"; }
    if (status == "complete" && !g_unsupported.empty()) status = "partial";
    emit(status, t0, fnName);
    _exit(0);
}
