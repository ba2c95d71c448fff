// Scratch directories and CSV files
#ifndef FILES_HPP_
#define FILES_HPP_

#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <sstream>
#include <string>
#include <vector>

// A scratch directory of its own for each case
struct Scratch
{
  Scratch()
  {
    char name[] = "/tmp/verifXXXXXX";
    if (!mkdtemp(name)) {perror("mkdtemp"); exit(2);}
    dir = std::string(name) + "/";
  }
  ~Scratch()
  {
    if (DIR * d = opendir(dir.c_str())) {
      while (dirent * e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") {unlink((dir + n).c_str());}
      }
      closedir(d);
    }
    rmdir(dir.c_str());
  }
  std::string dir;
};

inline std::vector<std::string> Lines(const std::string & file)
{
  std::vector<std::string> out;
  std::ifstream f(file);
  std::string l;
  while (std::getline(f, l)) {out.push_back(l);}
  return out;
}
inline std::vector<std::string> Split(const std::string & l)
{
  std::vector<std::string> out;
  std::string w;
  std::stringstream s(l);
  while (std::getline(s, w, ',')) {out.push_back(w);}
  if (!l.empty() && l.back() == ',') {out.push_back("");}
  return out;
}

#endif  // FILES_HPP_
