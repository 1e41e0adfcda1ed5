// Stand-in for the path library that the repository expects in ext/filesystem (an empty submodule here).
// Same interface and documented meaning; every destructive operation is confined to the directory named by the
// environment variable GALS_SCRATCH (calls that reach outside it are refused and recorded in GALS_SCRATCH/escapes).
#pragma once
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ostream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>

namespace filesystem
{
class path
{
 public:
  path() {}
  path(const char *s) : m(s) {}
  path(const std::string &s) : m(s) {}
  const std::string &str() const { return m; }
  const std::string &string() const { return m; }
  const char *c_str() const { return m.c_str(); }
  size_t length() const { return m.size(); }
  bool empty() const { return m.empty(); }
  bool is_absolute() const { return !m.empty() && m[0] == '/'; }
  path make_absolute() const
  {
    char b[4096];
    return is_absolute() || !::getcwd(b, sizeof b) ? *this : path(std::string(b)) / *this;
  }
  static path getcwd()
  {
    char b[4096];
    return ::getcwd(b, sizeof b) ? path(std::string(b)) : path();
  }
  std::string filename() const { return m.substr(m.find_last_of('/') == std::string::npos ? 0 : m.find_last_of('/') + 1); }
  std::string extension() const
  {
    const std::string f = filename();
    return f.find_last_of('.') == std::string::npos ? "" : f.substr(f.find_last_of('.') + 1);
  }
  path parent_path() const
  {
    std::string s = m;
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    const size_t q = s.find_last_of('/');
    return path(q == std::string::npos ? std::string() : q == 0 ? std::string("/") : s.substr(0, q));
  }
  path operator/(const path &o) const { return path(m.empty() || m.back() == '/' ? m + o.m : m + "/" + o.m); }
  bool operator==(const path &o) const { return m == o.m; }
  bool operator!=(const path &o) const { return m != o.m; }
  friend std::ostream &operator<<(std::ostream &os, const path &p) { return os << p.m; }
  size_t file_size() const
  {
    struct stat sb;
    return ::stat(m.c_str(), &sb) == 0 ? (size_t)sb.st_size : 0;
  }
  bool exists() const
  {
    struct stat sb;
    return ::stat(m.c_str(), &sb) == 0;
  }
  bool is_directory() const
  {
    struct stat sb;
    return ::stat(m.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode);
  }
  bool is_file() const
  {
    struct stat sb;
    return ::stat(m.c_str(), &sb) == 0 && S_ISREG(sb.st_mode);
  }
  bool remove_file() const;

 private:
  std::string m;
};

inline bool confined(const path &p)
{
  const char *root = getenv("GALS_SCRATCH");
  if (!root) return false;
  const std::string r = std::string(root) + "/";
  bool ok = p.str().compare(0, r.size(), r) == 0 && p.str().size() > r.size();
  char cwd[4096];       // a relative path, when the program runs in the scratch directory
  if (!p.str().empty() && p.str()[0] != '/' && p.str() != "." && ::getcwd(cwd, sizeof cwd) && std::string(cwd) + "/" == r) ok = true;
  ok = ok && p.str().find("..") == std::string::npos;
  if (!ok)
    if (FILE *f = fopen((r + "escapes").c_str(), "a")) {
      fprintf(f, "%s\n", p.str().c_str());
      fclose(f);
    }
  return ok;
}
inline bool path::remove_file() const { return confined(*this) && is_file() && ::unlink(m.c_str()) == 0; }

inline bool create_directories(const path &p)
{
  if (!confined(p)) return false;
  const std::string &s = p.str();
  for (size_t q = 1; q <= s.size(); ++q)
    if (q == s.size() || s[q] == '/') {
      const std::string t = s.substr(0, q);
      if (::mkdir(t.c_str(), 0755) != 0 && errno != EEXIST && errno != EROFS) return false;
    }
  return p.is_directory();
}
inline bool create_directory(const path &p) { return confined(p) && ::mkdir(p.str().c_str(), 0755) == 0; }
inline bool remove_directories(const path &p)
{
  if (!confined(p) || !p.is_directory()) return false;
  DIR *d = ::opendir(p.str().c_str());
  if (!d) return false;
  while (struct dirent *e = ::readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string base = p.str();
    while (!base.empty() && base.back() == '/') base.pop_back();
    path q(base + "/" + e->d_name);
    if (q.is_directory()) remove_directories(q);
    else q.remove_file();
  }
  ::closedir(d);
  std::string base = p.str();
  while (!base.empty() && base.back() == '/') base.pop_back();
  return ::rmdir(base.c_str()) == 0;
}
}  // namespace filesystem
