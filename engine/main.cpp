#include "engine.cpp"
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/IR/Attributes.h>

static std::unique_ptr<Module> load(LLVMContext &C, const std::string &fn)
{
	SMDiagnostic d; auto m = parseIRFile(fn, d, C);
	if(not m) { d.print("irvc", errs()); exit(2); }
	return m;
}

// strip parameter list / return type of a demangled name: "ns::f" from "ret ns::f(args) const"
static std::string baseName(const std::string &d)
{
	int a = 0; size_t i = 0; size_t start = 0;
	for(; i < d.size(); i++) { char c = d[i]; if(c == '<') a++; else if(c == '>') a--; else if(c == ' ' and a == 0 and d.compare(i + 1, 8, "operator") != 0) start = i + 1; else if(c == '(' and a == 0 and d.compare(i, 11, "(anonymous ") != 0) break; }
	if(d.find("operator") != std::string::npos) return d;
	return d.substr(start, i - start);
}

// prep: apply contract stubs, keep only what the entry reaches
static int prep(int argc, char **argv)
{
	std::string in, out, entry; bool native = false, list = false;
	for(int i = 2; i < argc; i++) { std::string a = argv[i]; if(a == "-o") out = argv[++i]; else if(a == "-entry") entry = argv[++i]; else if(a == "-native") native = true; else if(a == "-list") list = true; else in = a; }
	LLVMContext C; auto m = load(C, in);
	if(list) { for(auto &f : *m) if(not f.isDeclaration() and f.getName().startswith("h_")) printf("%s\n", f.getName().str().c_str()); return 0; }
	std::map<std::string, std::vector<Function *>> byBase;
	for(auto &f : *m) { std::string d = demangle(f.getName().str()); byBase[baseName(d)].push_back(&f); byBase[d].push_back(&f); }
	std::vector<std::string> missing;
	if(auto *ga = m->getNamedGlobal("llvm.global.annotations")) {
		auto *arr = cast<ConstantArray>(ga->getInitializer());
		std::vector<std::pair<Function *, std::string>> stubs;
		for(auto &op : arr->operands()) {
			auto *st = cast<ConstantStruct>(op); auto *fn = dyn_cast<Function>(st->getOperand(0)->stripPointerCasts());
			auto *gs = dyn_cast<GlobalVariable>(st->getOperand(1)->stripPointerCasts());
			if(not fn or not gs) continue;
			std::string s = cast<ConstantDataSequential>(gs->getInitializer())->getAsCString().str();
			if(s.compare(0, 4, "stub") != 0) continue;
			std::string filter; size_t p = 4;
			if(s[p] == '[') { size_t e = s.find(']', p); filter = s.substr(p + 1, e - p - 1); p = e + 1; }
			if(s[p] == ':') p++;
			if(not filter.empty()) { if(not std::regex_match(entry, std::regex(filter))) continue; }
			stubs.push_back({fn, s.substr(p)});
		}
		for(auto &p : stubs) {
			auto it = byBase.find(p.second);
			if(it == byBase.end()) { missing.push_back(p.second); continue; }
			std::set<Function *> seen;
			bool hit = false;
			for(auto *t : it->second) if(t != p.first and seen.insert(t).second) {
				if(t->getFunctionType() != p.first->getFunctionType()) continue;
				t->replaceUsesWithIf(p.first, [&](Use &u) { auto *I = dyn_cast<Instruction>(u.getUser()); if(I) { if(I->getFunction() == p.first) return false; } return true; });
				hit = true;
			}
			if(not hit) missing.push_back(p.second + " (type)");
		}
		ga->eraseFromParent();
	}
	Function *ef = m->getFunction(entry);
	if(not ef) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 4; }
	for(auto &f : *m) {
		f.removeFnAttr(Attribute::OptimizeNone);
		if(auto *sp = f.getSubprogram()) if(not f.isDeclaration() and sp->getFilename().contains("src/") and not f.hasFnAttribute(Attribute::AlwaysInline)) f.addFnAttr(Attribute::NoInline);
		if(f.getName().startswith("h_") or f.getName().startswith("v_")) continue;
	}
	Function *mainF = ef;
	if(not native) {
		FunctionType *ft = FunctionType::get(Type::getVoidTy(C), false);
		mainF = Function::Create(ft, GlobalValue::ExternalLinkage, "irvc_main", m.get());
		IRBuilder<> B(BasicBlock::Create(C, "e", mainF));
		if(auto *gc = m->getNamedGlobal("llvm.global_ctors")) {
			std::vector<std::pair<uint64_t, Function *>> cs;
			if(auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) for(auto &op : arr->operands()) { auto *st = cast<ConstantStruct>(op); if(auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn}); }
			std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
			for(auto &c : cs) { c.second->setName("ctors." + c.second->getName()); B.CreateCall(c.second); }
			gc->eraseFromParent();
		}
		B.CreateCall(ef);
		B.CreateRetVoid();
	} else {
		for(auto &f : *m) if(not f.isDeclaration()) f.addFnAttr(Attribute::SanitizeAddress);
		ef->setName("irvc_entry");
	}
	for(auto &g : m->global_values()) {
		if(&g == mainF or &g == ef or g.isDeclaration()) continue;
		if(g.getName().startswith("llvm.")) continue;
		if(native and (g.hasLinkOnceLinkage() or g.hasWeakLinkage())) continue;
		if(native and g.getName().startswith("_ZSt")) continue;
		if(auto *go = dyn_cast<GlobalObject>(&g)) go->setComdat(nullptr);
		g.setLinkage(GlobalValue::InternalLinkage); g.setVisibility(GlobalValue::DefaultVisibility); g.setDSOLocal(true);
	}
	for(auto &s : missing) fprintf(stderr, "irvc prep: missing stub target %s\n", s.c_str());
	std::error_code ec; raw_fd_ostream o(out, ec); WriteBitcodeToFile(*m, o);
	return missing.empty() ? 0 : 5;
}

static void collectGlobals(Module &m)
{
	uint32_t id = 1;
	for(auto &f : m.functions()) { g_gid[&f] = id; g_gval[id] = &f; id++; }
	for(auto &g : m.globals()) { g_gid[&g] = id; g_gval[id] = &g; id++; }
	g_firstDyn = id;
	for(auto &a : m.aliases()) { auto *o = a.getAliaseeObject(); if(o and g_gid.count(o)) g_gid[&a] = g_gid[o]; }
}

int main(int argc, char **argv)
{
	if(argc > 1 and std::string(argv[1]) == "prep") return prep(argc, argv);
	if(argc < 3 or std::string(argv[1]) != "run") { fprintf(stderr, "usage: irvc prep IN -entry E -o OUT [-native] | irvc run MOD -name E -out DIR [-procs N] [-secs T]\n"); return 2; }
	std::string in; double secs = 600; bool dump = false;
	for(int i = 2; i < argc; i++) { std::string a = argv[i]; if(a == "-out") g_outdir = argv[++i]; else if(a == "-name") g_entry = argv[++i]; else if(a == "-procs") g_maxprocs = atoi(argv[++i]); else if(a == "-secs") secs = atof(argv[++i]); else if(a == "-noinv") g_noinv = true; else if(a == "-v") dump = true; else in = a; }
	g_t0 = std::chrono::steady_clock::now(); g_deadline = secs;
	SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	SH->active = 1; g_timeLeft = [] { return deadline() - now(); };
	LLVMContext C; auto m = load(C, in); M = m.get(); DL = &M->getDataLayout();
	collectGlobals(*M);
	Function *f = M->getFunction("irvc_main"); if(not f) { fprintf(stderr, "no irvc_main\n"); return 4; }
	StateP s(new State()); s->mem.resize(g_firstDyn); s->model = std::make_shared<Model>();
	pushFrame(*s, f, nullptr, {}, {});
	WL->push_back(std::move(s));
	while(true) { try { drain(); break; } catch(std::string &c) { if(c != "child") die("exception " + c); } }
	SH->active--;
	int st, bad = 0;
	for(pid_t p : g_children) { waitpid(p, &st, 0); if(not WIFEXITED(st) or WEXITSTATUS(st)) bad++; }
	if(bad) g_errors["worker process died"] += bad;
	writeResults();
	fflush(stdout); fflush(stderr);
	if(dump) fprintf(stderr, "paths %ld forks %ld steps %ld t %.2f\n", SH->paths.load(), SH->forks.load(), SH->steps.load(), now());
	_exit(0);
}
