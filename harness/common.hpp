#pragma once
#include "pbt.hpp"
#include "LinearAlgebra/INCLUDE/vector.hpp"
#include "LinearAlgebra/INCLUDE/matrix.hpp"
#include <fstream>
#include <cmath>
inline Rodop::vec V(const std::vector<double>& v){ Rodop::vec r((unsigned)v.size()); for(size_t i=0;i<v.size();i++) r(i)=v[i]; return r; }
inline std::vector<double> S(const Rodop::vec& v){ std::vector<double> r; for(unsigned i=0;i<v.getSize();i++) r.push_back(v(i)); return r; }
typedef std::vector<std::vector<double>> Rows;
inline Rodop::mat M(const Rows& r, unsigned cols){ Rodop::mat m((unsigned)r.size(),cols); for(size_t i=0;i<r.size();i++) for(size_t j=0;j<cols;j++) m(i,j)=r[i][j]; return m; }
inline Rows R(const Rodop::mat& m){ Rows r(m.getNRows(),std::vector<double>(m.getNCols())); for(unsigned i=0;i<m.getNRows();i++) for(unsigned j=0;j<m.getNCols();j++) r[i][j]=m(i,j); return r; }
inline std::string str(const Rows& r){ std::ostringstream o; o<<"["; for(size_t i=0;i<r.size();i++) o<<(i?" ":"")<<pbt::str(r[i]); o<<"]"; return o.str(); }
// reads a CSV of numbers; header==true skips the first line (returned in hdr)
inline Rows readCsv(const std::string& path, bool header, std::vector<std::string>* hdr=nullptr, bool* ok=nullptr){
    std::ifstream f(path); if(ok)*ok=(bool)f; std::string l; Rows rows; bool first=true;
    while(std::getline(f,l)){ std::vector<std::string> cells; std::string cur; for(char ch: l){ if(ch==','){ cells.push_back(cur); cur.clear(); } else if(ch!='\r') cur+=ch; } cells.push_back(cur);
        if(first&&header){ if(hdr)*hdr=cells; first=false; continue; } first=false; if(cells.size()==1&&cells[0].empty()) continue;
        std::vector<double> r; for(auto& s: cells){ char* e; double d=strtod(s.c_str(),&e); if(e==s.c_str()||*e){ if(ok)*ok=false; d=NAN; } r.push_back(d); } rows.push_back(r); }
    return rows; }
inline double Phi(double z){ return 0.5*std::erfc(-z/std::sqrt(2.0)); }
inline double phi(double z){ return std::exp(-0.5*z*z)/std::sqrt(2*M_PI); }
