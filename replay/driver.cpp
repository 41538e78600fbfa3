// Replay driver: runs concrete cases against the real sources of /repo through their public interface and prints what happened.
// Input: one case per line, whitespace separated integers (see fv/case.py).  Output: "R <id> <tokens>" or "X <id> <signal>".
#include "FungeUniverse.h"
#include "FungeRunner.h"
#include "FungeUtilities.h"
#include "Field.h"
#include "VectorRange.h"
#include "FungeMultiverse.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdio>
using namespace Funge;
typedef long long ll;
static std::string syslog_;
static int sysret = 0;
extern "C" int __wrap_system(const char* c){
	syslog_ += std::string("S") + c + "\n";
	return sysret;
}
struct Tok {
	std::istringstream is;
	ll i(){ ll x = 0; is >> x; return x; }
	std::string s(){ ll n = i(); std::string r; for(ll k = 0; k < n; ++k) r.push_back((char)i()); return r; }
	Vector v(){ ll a = i(), b = i(), c = i(); return Vector{a, b, c}; }
};
static std::ostringstream out;
static void o(ll x){ out << ' ' << x; }
static void os(const std::string& s){ o(s.size()); for(char c : s) o((unsigned char)c); }
static void ov(const Vector& v){ for(size_t k = 0; k < 3; ++k) o(v.get(k)); }
static void stackcase(Tok& t);
static void vectorcase(Tok& t);
static void fieldcase(Tok& t);
static void sscase(Tok& t);
static void rangecase(Tok& t);

// the runner among the runners of its universe (built without access control)
template<class U> static void enlist(U& u, FungeRunner& r, bool on){
	if constexpr(requires { u.runners.push_back(&r); }){
		if(on) u.runners.push_back(&r); else u.runners.clear();
	}
}
static void dumprunner(FungeRunner& r, const std::vector<Vector>& probes){
	ov(r.getIP().getPos()); ov(r.getIP().getDelta()); ov(r.getIP().getStorage());
	o(r.getIP().isStopped());
	StackStack& ss = r.getStack();
	while(ss.increment() == ERROR_NONE){}
	size_t n = ss.size();
	o(n);
	for(size_t i = 0; i < n; ++i){
		Stack& s = ss.at(i);
		s.push(777001); s.push(777002); o(s.pop());
		s.setMode(FungeMode());
		size_t m = s.size();
		o(m);
		for(size_t k = m; k > 0; --k) o(s.get(k));
	}
	Field& f = r.getField();
	for(auto& p : probes) o(f.get(p));
}
static void instr(Tok& t){
	FungeConfig cfg;
	cfg.dimensions = t.i();
	cfg.standard = (FungeStandard)t.i();
	cfg.topo = (FungeTopo)t.i();
	cfg.strings = (FungeString)t.i();
	cfg.cells = (FungeCell)t.i();
	cfg.mode = (FungeMode)t.i();
	ll fl = t.i();
	cfg.concurrent = fl & 1; cfg.execute = fl & 2; cfg.filesystem = fl & 4; cfg.fingerprint = fl & 8; cfg.inverthl = fl & 16;
	ll na = t.i(); for(ll k = 0; k < na; ++k) cfg.args.push_back(t.s());
	ll ne = t.i(); for(ll k = 0; k < ne; ++k) cfg.env.push_back(t.s());
	ll nf = t.i(); for(ll k = 0; k < nf; ++k) cfg.fingerprints.push_back((uint64_t)t.i());
	// finger prints loaded by instruction before the case starts
	ll nl = t.i(); std::vector<std::string> load; for(ll k = 0; k < nl; ++k) load.push_back(t.s());
	std::istringstream empty;
	FungeMode mode0 = cfg.mode;
	if(load.size()) cfg.mode = FungeMode();
	FungeUniverse uni(empty, Field::FORMAT_BF, cfg);
	FungeRunner r(uni, Vector{0}, Vector{1});
	for(auto& l : load){
		Stack& s = r.getStack().top();
		for(size_t k = l.size(); k > 0; --k) s.push((unsigned char)l[k-1]);
		s.push(l.size());
		r.getStack().setMode(FungeMode());
		bool had = cfg.fingerprint; (void)had;
		r.execute('(');
		s.clear();
	}
	if(load.size()) uni.setMode(mode0);
	StackStack& ss = r.getStack();
	ss.setMode(FungeMode());
	ll smode = t.i();
	ll ns = t.i();
	for(ll k = 0; k < ns; ++k){
		if(k > 0) ss.push();
		ss.setMode(FungeMode());
		ll n = t.i();
		for(ll j = 0; j < n; ++j) ss.top().push(t.i());
	}
	ss.setMode((FungeMode)smode);
	ll sel = t.i();
	for(ll k = 0; k < sel; ++k) ss.decrement();
	Field& f = r.getField();
	ll nc = t.i();
	for(ll k = 0; k < nc; ++k){ Vector p = t.v(); f.put(p, t.i()); }
	Vector pos = t.v(), delta = t.v(), sto = t.v();
	r.getIP().setPos(pos);
	if(uni.isMode(FUNGE_MODE_HOVER)){
		uni.clearMode(FUNGE_MODE_HOVER); r.getIP().setDelta(delta); uni.setMode(FUNGE_MODE_HOVER); ss.setMode((FungeMode)smode);
	}else r.getIP().setDelta(delta);
	r.getIP().setStorage(sto);
	std::string in = t.s();
	sysret = (int)t.i();
	syslog_.clear();
	ll nfile = t.i();
	for(ll k = 0; k < nfile; ++k){ std::string nm = t.s(), body = t.s(); std::ofstream(nm, std::ios::binary) << body; }
	ll nrd = t.i(); std::vector<std::string> rd; for(ll k = 0; k < nrd; ++k){ rd.push_back(t.s()); if(nfile == 0) unlink(rd.back().c_str()); }
	ll np = t.i(); std::vector<Vector> probes; for(ll k = 0; k < np; ++k) probes.push_back(t.v());
	FILE* fin = in.size() ? fmemopen((void*)in.data(), in.size(), "r") : fopen("/dev/null", "r");
	FILE* oldin = stdin;
	stdin = fin;
	std::istringstream cinbuf(in);
	auto oc = std::cin.rdbuf(cinbuf.rdbuf());
	std::ostringstream co, ce;
	auto o1 = std::cout.rdbuf(co.rdbuf()); auto o2 = std::cerr.rdbuf(ce.rdbuf());
	ll ncall = t.i();
	std::vector<ll> errs;
	if(fl & 32) enlist(uni, r, true);
	for(ll k = 0; k < ncall; ++k){
		ll kind = t.i(), a = t.i();
		if(kind == 0) errs.push_back(r.execute(a));
		else if(kind == 1){ r.tick(); errs.push_back(0); }
		else if(kind == 2){ r.getIP().next(); errs.push_back(0); }
		else if(kind == 3){ r.setState(r.getStringState(a)); errs.push_back(0); }
		else if(kind == 4){ FungeRunner* c = new FungeRunner(r); std::ostringstream sv; sv.swap(out); dumprunner(*c, {}); std::ostringstream me; me.swap(out); out.swap(sv); out << me.str(); delete c; errs.push_back(0); }
	}
	if(fl & 32) enlist(uni, r, false);
	std::cout.rdbuf(o1); std::cerr.rdbuf(o2); std::cin.rdbuf(oc);
	o(errs.size()); for(ll e : errs) o(e);
	ll used = fin ? ftell(fin) : 0;
	o(in.size() ? used : 0);
	os(co.str()); o(ce.str().size() > 0);
	os(syslog_);
	o((ll)uni.getMode()); o(uni.get()); o(uni.isRunning() ? 1 : 0);
	dumprunner(r, probes);
	for(size_t d = 0; d < 3; ++d){ o(f.min(d)); o(f.max(d)); }
	o(rd.size()); for(auto& nm : rd){ std::ifstream x(nm, std::ios::binary); if(x.fail()){ o(-1); } else { std::stringstream b; b << x.rdbuf(); os(b.str()); } unlink(nm.c_str()); }
	if(fin) fclose(fin);
	stdin = oldin;
}
static void stackcase(Tok& t){
	Stack s;
	ll n = t.i(); for(ll k = 0; k < n; ++k) s.push(t.i());
	s.setMode((FungeMode)t.i());
	ll m = t.i();
	for(ll k = 0; k < m; ++k){
		ll op = t.i(), a = t.i();
		switch(op){
			case 0: o(s.pop()); break;
			case 1: s.push(a); break;
			case 2: o(s.peek()); break;
			case 3: o(s.get(a)); break;
			case 4: o(s[a]); break;
			case 5: s.clear(); break;
			case 6: o(s.size()); break;
			case 7: s.setMode((FungeMode)a); break;
			case 8: { Stack c(s); o(c.size()); for(size_t j = 1; j <= c.size(); ++j) o(c.get(j)); } break;
		}
	}
	s.setMode(FungeMode());
	o(s.size()); for(size_t j = s.size(); j > 0; --j) o(s.get(j));
}
static Vector nvec(Tok& t){ ll n = t.i(); Vector v; for(ll k = 0; k < n; ++k){ ll x = t.i(); v.set(k, x); } return v; }
static void onv(const Vector& v){ o(v.size()); for(size_t k = 0; k < v.size(); ++k) o(v.get(k)); }
static void vectorcase(Tok& t){
	Vector a = nvec(t), b = nvec(t);
	ll op = t.i(), d = t.i(), x = t.i();
	switch(op){
		case 0: onv(a+b); break;
		case 1: onv(a-b); break;
		case 2: { Vector c(a); c += b; onv(c); } break;
		case 3: { Vector c(a); c -= b; onv(c); } break;
		case 4: { Vector c(a); c.reverse(); onv(c); } break;
		case 5: { Vector c(a); c.left(); onv(c); } break;
		case 6: { Vector c(a); c.right(); onv(c); } break;
		case 7: o(a == b); break;
		case 8: o(a != b); break;
		case 9: o(a < b); break;
		case 10: o(a <= b); break;
		case 11: { Vector c(a); c.set(d, x); onv(c); } break;
		case 12: o(a.get(d)); break;
		case 13: o(a[d]); break;
		case 14: { Vector c(a); onv(c); Vector e; e = b; onv(e); } break;
		case 15: { o(a.size()); } break;
		case 16: { Vector::hash h; o(h(a) == h(b)); } break;
		case 17: { Vector c(a); c += c; onv(c); Vector e(a); e -= e; onv(e); } break;
		case 19: { Vector c(a); Vector& d2 = c; c = d2; onv(c); } break;
		case 18: { std::ostringstream ss; ss << a; os(ss.str()); } break;
	}
	onv(a); onv(b);
}
static void sscase(Tok& t){
	StackStack* ss = new StackStack();
	ll m = t.i();
	for(ll k = 0; k < m; ++k){
		ll op = t.i(), a = t.i();
		switch(op){
			case 0: ss->push(); break;
			case 1: ss->pop(); break;
			case 2: ss->insert(a); break;
			case 3: ss->remove(a); break;
			case 4: ss->top().push(a); break;
			case 5: ss->second().push(a); break;
			case 6: o(ss->top().pop()); break;
			case 7: ss->setMode((FungeMode)a); break;
			case 8: o(ss->increment()); break;
			case 9: o(ss->decrement()); break;
			case 10: { StackStack* c = new StackStack(*ss); delete ss; ss = c; } break;
			case 11: o(ss->size()); break;
			case 12: ss->at(a).push(k+1000); break;
		}
	}
	while(ss->increment() == ERROR_NONE){}
	o(ss->size());
	for(size_t i = 0; i < ss->size(); ++i){
		Stack& s = ss->at(i);
		s.push(777001); s.push(777002); o(s.pop());
		s.setMode(FungeMode());
		o(s.size());
		for(size_t k = s.size(); k > 0; --k) o(s.get(k));
	}
	delete ss;
}
static void fieldcase(Tok& t){
	ll dim = t.i(), cs = t.i();
	Field f(dim, (FungeCell)cs);
	ll m = t.i();
	for(ll k = 0; k < m; ++k){
		ll op = t.i();
		switch(op){
			case 0: { Vector p = nvec(t); f.put(p, t.i()); } break;
			case 1: { Vector p = nvec(t); o(f.get(p)); } break;
			case 2: { ll d = t.i(); o(f.min(d)); o(f.max(d)); } break;
			case 3: { Vector s = nvec(t); std::string txt = t.s(); bool bin = t.i(); std::istringstream is(txt); Vector e = f.parse(s, is, bin); ov(e); } break;
			case 4: { Vector s = nvec(t), d = nvec(t); bool bin = t.i(); std::ostringstream ss; f.dump(s, d, ss, bin); os(ss.str()); } break;
			case 5: o(f.size()); break;
			case 6: { Vector p = nvec(t); o(f[p]); } break;
			case 7: { std::string txt = t.s(); ll fmt = t.i(); std::istringstream is(txt); Field g(is, (Field::FileFormat)fmt, t.i(), (FungeCell)t.i()); ll n = t.i(); for(ll j = 0; j < n; ++j){ Vector p = nvec(t); o(g.get(p)); } o(g.size()); for(size_t d = 0; d < 3; ++d){ o(g.min(d)); o(g.max(d)); } } break;
		}
	}
}
static void rangecase(Tok& t){
	Vector a = nvec(t), b = nvec(t);
	ll lim = t.i();
	VectorRange r(a, b);
	ll n = 0;
	for( ; *r != r.end() && n < lim; ++r, ++n) ov(*r);
	o(-424242); o(n);
}
static void multicase(Tok& t){
	FungeMultiverse& mv = FungeMultiverse::getInstance();
	ll n = t.i();
	FungeConfig cfg; cfg.dimensions = 2; cfg.standard = FUNGE_98;
	for(ll k = 0; k < n; ++k){
		cfg.name = t.s();
		FungeUniverse* u = mv.create(cfg);
		os(u->getName());
		o(mv[u->getName()] == u);
	}
	o(mv.size());
}
// a whole program, run by the universe itself
static void progcase(Tok& t){
	FungeConfig cfg;
	cfg.dimensions = t.i();
	cfg.standard = (FungeStandard)t.i();
	cfg.topo = TOPO_LAHEY;
	cfg.cells = CELL_INT;
	cfg.threads = THREAD_FUNGE;
	ll fl = t.i();
	cfg.concurrent = fl & 1; cfg.execute = false; cfg.filesystem = false;
	FungeUniverse uni(cfg);
	Field& f = uni.getField();
	ll nc = t.i();
	for(ll k = 0; k < nc; ++k){ Vector p = t.v(); f.put(p, t.i()); }
	std::ostringstream co, ce;
	auto o1 = std::cout.rdbuf(co.rdbuf()); auto o2 = std::cerr.rdbuf(ce.rdbuf());
	Vector pos = t.v(), delta = t.v();
	uni.createRunner(pos, delta);
	uni.wait();
	std::cout.rdbuf(o1); std::cerr.rdbuf(o2);
	os(co.str());
	o(uni.get());
	o(uni.isRunning());
}
int main(int argc, char** argv){
	if(argc > 1 && chdir(argv[1]) != 0) return 2;
	std::vector<std::string> cases;
	std::string l;
	while(std::getline(std::cin, l)) cases.push_back(l);
	volatile ll* done = (volatile ll*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	size_t i = 0;
	int res = dup(1);
	while(i < cases.size()){
		*done = i;
		pid_t p = fork();
		if(p == 0){
			struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
			rl.rlim_cur = rl.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &rl);
			int nul = open("/dev/null", 2); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
			std::string acc;
			for(size_t k = i; k < cases.size() && k < i+2000; ++k){
				alarm(3);
				Tok t; t.is.str(cases[k]);
				std::string kind; t.is >> kind;
				ll id = t.i();
				out.str(""); out.clear();
				if(kind == "I") instr(t);
				else if(kind == "S") stackcase(t);
				else if(kind == "V") vectorcase(t);
				else if(kind == "T") sscase(t);
				else if(kind == "F") fieldcase(t);
				else if(kind == "G") rangecase(t);
				else if(kind == "M") multicase(t);
				else if(kind == "P") progcase(t);
				std::string line = "R " + std::to_string(id) + out.str() + "\n";
				size_t off = 0;
				while(off < line.size()){ ssize_t w = write(res, line.data()+off, line.size()-off); if(w <= 0) _exit(3); off += w; }
				*done = k+1;
			}
			_exit(0);
		}
		int st = 0;
		waitpid(p, &st, 0);
		i = *done;
		if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)){
			std::istringstream is(cases[i]); std::string kind; ll id; is >> kind >> id;
			std::string line = "X " + std::to_string(id) + " " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000+WEXITSTATUS(st)) + "\n";
			if(write(res, line.data(), line.size()) < 0) return 3;
			++i;
		}
	}
	return 0;
}
