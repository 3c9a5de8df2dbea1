// C27: objects made in one thread and used in others, as threads end and afterwards, each combination in a process of its own.
#include "scenarios.h"
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <thread>
#include <unistd.h>
const char *const mc::property = "C27";

namespace {
enum { MAIN, A_BODY, A_END, B_BODY, B_END, AFTER, STAGES };
const char *const stage_name[] = {"in main", "in a thread", "as that thread ends", "in a later thread", "as the later thread ends", "in main after all threads"};

// ---- in the child: what is to be done at each stage, e.g. "0:m3,u4;4:u3,d3,"  (make, use, drop)
std::vector<Fixture> *fixtures;
uint64_t digest(const Bytes &b) { return mc::hash_bytes(b.data(), b.size()); }
void use(size_t i) {
	Fixture &f = (*fixtures)[i];
	if (!f.op) f = scenarios()[i].make();
	unsigned long long a = digest(f.op()), b = digest(f.look());
	RecSink::newest.reset();
	char t[100];
	int n = snprintf(t, sizeof t, "%zu %llx %llx\n", i, a, b);
	if (write(3, t, size_t(n)) != n) _exit(5);
}
void stage(int which) {
	const char *spec = getenv("MC_LIFE");
	if (!spec) return;
	if (!fixtures) fixtures = new std::vector<Fixture>(scenarios().size());
	for (const char *p = spec; *p;) {
		int s = atoi(p);
		p = strchr(p, ':') + 1;
		for (; *p && *p != ';'; p = strchr(p, ',') + 1) {
			if (s != which) continue;
			size_t i = size_t(atoi(p + 1));
			if (*p == 'm') (*fixtures)[i] = scenarios()[i].make();
			else if (*p == 'u') use(i);
			else (*fixtures)[i] = Fixture();
		}
		if (*p) p++;
	}
}
struct AtEnd { int which = -1; ~AtEnd() { if (which >= 0) stage(which); } };
AtEnd &thread_end() { thread_local AtEnd e; return e; }
// ---- in the explorer
struct Known { uint64_t op, look; };
const Known &known(size_t i) {
	static std::vector<std::unique_ptr<Known>> k(scenarios().size());
	if (!k[i]) {
		Fixture f = scenarios()[i].make();
		k[i] = std::make_unique<Known>();
		k[i]->op = digest(f.op());
		k[i]->look = digest(f.look());
	}
	return *k[i];
}
void child(mc::Run &r, const std::string &spec, size_t uses, const std::string &what) {
	r.begin("%s", what.c_str());
	int p[2];
	if (pipe(p)) r.fail("pipe");
	pid_t pid = fork();
	if (pid < 0) r.fail("fork");
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (p[1] != 3) { dup2(p[1], 3); close(p[1]); }
		if (p[0] != 3) close(p[0]);
		setenv("MC_LIFE", spec.c_str(), 1);
		execl("/proc/self/exe", "life", static_cast<char *>(nullptr));
		_exit(9);
	}
	close(p[1]);
	std::string out;
	char b[4096];
	for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) { out.append(b, size_t(n)); r.tick(); }
	close(p[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	size_t lines = 0;
	for (size_t at = 0; at < out.size(); lines++) {
		size_t i = 0;
		unsigned long long a = 0, c = 0;
		if (sscanf(out.c_str() + at, "%zu %llx %llx", &i, &a, &c) != 3) r.fail("a line cannot be read");
		if (i >= scenarios().size()) r.fail("a wrong number");
		if (a != known(i).op) r.fail("use %zu of them (%s) yields something else", lines, scenarios()[i].name.c_str());
		if (c != known(i).look) r.fail("after use %zu of them (%s) its objects yield something else", lines, scenarios()[i].name.c_str());
		at = out.find('\n', at);
		if (at == std::string::npos) r.fail("an incomplete line");
		at++;
		r.step();
		r.state(mc::mix(mc::mix(i, lines), mc::hash_bytes(spec.data(), spec.size())));
	}
	if (st) r.fail("the process is ended by %s %d after %zu of %zu uses", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), lines, uses);
	if (lines != uses) r.fail("%zu uses instead of %zu", lines, uses);
	r.trace();
}
std::string at(int p, const std::string &s) { return std::to_string(p) + ":" + s; }
std::string a(char c, size_t i) { return c + std::to_string(i) + ","; }

void one(mc::Run &r, size_t i) {
	const std::string &n = scenarios()[i].name;
	for (int p = 0; p < STAGES; p++)
		for (int q = p; q < STAGES; q++) {
			std::string where = n + ": made " + stage_name[p] + ", used " + stage_name[q];
			child(r, at(p, a('m', i)) + ";" + at(q, a('u', i) + a('u', i) + a('d', i)), 2, where);
			if (q == p) continue;
			child(r, at(p, a('u', i)) + ";" + at(q, a('u', i) + a('d', i)), 2, where + " and when made");
			child(r, at(p, a('u', i) + a('d', i)) + ";" + at(q, a('u', i)), 2, n + ": used " + stage_name[p] + ", made anew " + stage_name[q]);
			for (int s = q + 1; s < STAGES; s++)
				child(r, at(p, a('m', i)) + ";" + at(q, a('u', i)) + ";" + at(s, a('u', i) + a('d', i)), 2, where + " and " + stage_name[s]);
		}
	r.sample("%s: made and used at all pairs of %d stages", n.c_str(), int(STAGES));
}
void others(mc::Run &r, size_t i) {
	const std::string &n = scenarios()[i].name;
	for (int p = 0; p < STAGES; p++)
		for (int q = p; q < STAGES; q++) {
			std::string all;
			size_t uses = 1;
			for (size_t j = 0; j < scenarios().size(); j++)
				if (j != i && (scenarios()[j].allocs_parts != 8 || (i + j) % 4 == 0 || r.thorough())) { all += a('u', j); uses++; }
			child(r, p == q ? at(p, a('u', i) + all) : at(p, a('u', i)) + ";" + at(q, all), uses, n + " " + stage_name[p] + ", and all others " + stage_name[q]);
		}
}
}  // namespace

extern "C" int mc_other_main() {
	if (!getenv("MC_LIFE")) return 0;
	stage(MAIN);
	for (int t : {A_BODY, B_BODY})
		std::thread([t] {
			thread_end().which = t + 1;
			stage(t);
		}).join();
	stage(AFTER);
	return 1;
}
void mc::jobs(std::vector<Job> &out, Tier) {
	for (size_t i = 0; i < scenarios().size(); i++) {
		out.push_back({"one-" + std::to_string(i), [i](Run &r) { one(r, i); }, scenarios()[i].allocs_parts});
		out.push_back({"others-" + std::to_string(i), [i](Run &r) { others(r, i); }, 2});
	}
}
