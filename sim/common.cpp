#include "common.hpp"
#include <cerrno>
#include <cstdarg>
#include <time.h>

namespace qs {

std::string quote(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

static int hexv(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

bool unquote(const char*& p, std::string& out) {
    while (*p == ' ') ++p;
    if (*p != '"') return false;
    ++p;
    out.clear();
    while (*p && *p != '"') {
        if (*p == '\\') {
            ++p;
            switch (*p) {
            case 'n': out += '\n'; ++p; break;
            case 'r': out += '\r'; ++p; break;
            case 't': out += '\t'; ++p; break;
            case 'x': {
                int a = hexv(p[1]), b = a < 0 ? -1 : hexv(p[2]);
                if (b < 0) return false;
                out += (char)(a * 16 + b);
                p += 3;
                break;
            }
            case 0: return false;
            default: out += *p++; break;
            }
        }
        else out += *p++;
    }
    if (*p != '"') return false;
    ++p;
    return true;
}

std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    char b[2048];
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n < (int)sizeof b) return std::string(b, n < 0 ? 0 : (size_t)n);
    std::string r((size_t)n + 1, 0);
    va_start(ap, f);
    vsnprintf(&r[0], r.size(), f, ap);
    va_end(ap);
    r.resize((size_t)n);
    return r;
}

bool starts_with(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
bool ends_with(const std::string& s, const std::string& p) {
    return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
}
bool contains(const std::string& s, const std::string& p) { return s.find(p) != std::string::npos; }
std::vector<std::string> split_lines(const std::string& s) {
    std::vector<std::string> r;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('\n', i);
        if (j == std::string::npos) { r.push_back(s.substr(i)); break; }
        r.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return r;
}
std::string replace_all(std::string s, const std::string& a, const std::string& b) {
    size_t i = 0;
    while ((i = s.find(a, i)) != std::string::npos) { s.replace(i, a.size(), b); i += b.size(); }
    return s;
}
std::string dirname_of(const std::string& p) {
    size_t i = p.rfind('/');
    if (i == std::string::npos) return "";
    if (i == 0) return "/";
    return p.substr(0, i);
}
std::string basename_of(const std::string& p) {
    size_t i = p.rfind('/');
    return i == std::string::npos ? p : p.substr(i + 1);
}
std::string lexnorm(const std::string& abs) {
    std::vector<std::string> parts;
    size_t i = 0;
    while (i <= abs.size()) {
        size_t j = abs.find('/', i);
        if (j == std::string::npos) j = abs.size();
        std::string c = abs.substr(i, j - i);
        if (c == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!c.empty() && c != ".") parts.push_back(c);
        i = j + 1;
    }
    std::string r;
    for (auto& c : parts) r += "/" + c;
    return r.empty() ? "/" : r;
}

static const struct { int e; const char* n; } errs[] = {
    {EPERM, "EPERM"}, {ENOENT, "ENOENT"}, {EINTR, "EINTR"}, {EIO, "EIO"}, {EAGAIN, "EAGAIN"},
    {ENOMEM, "ENOMEM"}, {EACCES, "EACCES"}, {EEXIST, "EEXIST"}, {ENOTDIR, "ENOTDIR"},
    {EISDIR, "EISDIR"}, {EINVAL, "EINVAL"}, {ENFILE, "ENFILE"}, {EMFILE, "EMFILE"},
    {EFBIG, "EFBIG"}, {ENOSPC, "ENOSPC"}, {EROFS, "EROFS"}, {EPIPE, "EPIPE"},
    {ENAMETOOLONG, "ENAMETOOLONG"}, {ELOOP, "ELOOP"}, {EDQUOT, "EDQUOT"}, {ESTALE, "ESTALE"},
    {EBADF, "EBADF"}, {ENOTEMPTY, "ENOTEMPTY"}, {ETIMEDOUT, "ETIMEDOUT"}, {EOVERFLOW, "EOVERFLOW"},
    {EBUSY, "EBUSY"}, {ENOSYS, "ENOSYS"}, {EXDEV, "EXDEV"}};
std::string errno_name(int e) {
    for (auto& x : errs) if (x.e == e) return x.n;
    return fmt("E%d", e);
}
int errno_value(const std::string& n) {
    for (auto& x : errs) if (n == x.n) return x.e;
    if (n.size() > 1 && n[0] == 'E') return atoi(n.c_str() + 1);
    return 0;
}

std::string json_str(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

double now_s() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

} // namespace qs
