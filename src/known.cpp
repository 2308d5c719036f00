/* Re-runs the findings recorded in known-findings.txt that belong to a property. */
#include "eng.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>

/* {"key": "string" | ["string", ...], ...} */
static bool parse(const std::string &t, std::map<std::string, std::vector<std::string>> &out) {
	size_t i = 0;
	auto ws = [&] { while (i < t.size() && strchr(" \t,:", t[i])) i++; };
	auto str = [&](std::string &r) {
		if (i >= t.size() || t[i] != '"') return false;
		for (i++; i < t.size() && t[i] != '"'; i++) {
			if (t[i] != '\\') { r += t[i]; continue; }
			char c = t[++i];
			r += c == 'n' ? '\n' : c;
		}
		i++;
		return true;
	};
	ws();
	if (i >= t.size() || t[i++] != '{') return false;
	for (;;) {
		ws();
		if (i >= t.size()) return false;
		if (t[i] == '}') return true;
		std::string k;
		if (!str(k)) return false;
		ws();
		auto &v = out[k];
		if (t[i] == '[') {
			i++;
			for (;;) { ws(); if (i >= t.size()) return false; if (t[i] == ']') { i++; break; } v.emplace_back(); if (!str(v.back())) return false; }
		}
		else { v.emplace_back(); if (!str(v.back())) return false; }
	}
}
int replay_known(const Property &p) {
	std::ifstream f("known-findings.txt");
	std::string line;
	int bad = 0, serial = 0;
	while (std::getline(f, line)) {
		if (line.rfind("finding:", 0)) continue;
		std::map<std::string, std::vector<std::string>> m;
		if (!parse(line.substr(8), m)) { fprintf(stderr, "known-findings.txt: cannot read: %s\n", line.c_str()); return 1; }
		serial++;
		if (m["property"].empty() || m["property"][0] != p.id) continue;
		/* in a child: a finding may crash */
		int fd[2];
		if (pipe(fd)) return 1;
		pid_t pid = fork();
		if (pid == 0) {
			close(fd[0]);
			alarm(20);
			freopen("/dev/null", "w", stderr);
			std::string out;
			try {
				Session s(m["config"].empty() ? "default" : m["config"][0].c_str());
				for (auto &src : m["program"]) {
					Result r = s.run(src);
					if (out.size()) out += "; ";
					out += r.outcome();
					if (r.exec > 0) s.a->soft_reset(s.s);
				}
			} catch (Fail &x) { out = x.why; }
			if (write(fd[1], out.data(), out.size())) {}
			_exit(0);
		}
		close(fd[1]);
		std::string out;
		char b[4096];
		ssize_t n;
		while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, (size_t) n);
		close(fd[0]);
		int st;
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) out = "crash";
		std::string want = m["want"].empty() ? "" : m["want"][0], got = m["got"].empty() ? "" : m["got"][0];
		if (out == want) continue;              /* repaired */
		if (out == got) { printf("KNOWN-FINDING: property=%s %s\n", p.id, m["what"].empty() ? "" : m["what"][0].c_str()); continue; }
		std::string path = strf("replays/%s-known-%d.txt", p.id, serial);
		std::ofstream o(path);
		o << line << "\nexpected: " << want << "\nrecorded: " << got << "\nnow: " << out << "\n";
		printf("recorded finding %d now behaves differently: %s\nVIOLATION property=%s replay=%s\n", serial, out.c_str(), p.id, path.c_str());
		bad = 1;
	}
	return bad;
}
