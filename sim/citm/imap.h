// IMAP framing and tokens, shared by the model server and the model clients.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <algorithm>

struct Tok {
    enum T { ATOM, STR, LIST } t = ATOM;
    std::string s;
    std::vector<Tok> l;
    bool is(const char *x) const { return t == ATOM && !strcasecmp(s.c_str(), x); }
};

// Cut one logical line (with its literals) off the front of buf.  *plus says a
// synchronizing literal is waiting for a continuation.
struct Framer {
    std::string buf;
    size_t scan = 0;     // where the current physical line starts
    bool next(std::string &line){
        while(true){
            size_t p = buf.find("\r\n", scan);
            if(p == std::string::npos) return false;
            // literal at the end of this physical line?
            size_t lit = 0;
            bool has = false;
            if(p > scan && buf[p-1] == '}'){
                size_t b = buf.rfind('{', p);
                if(b != std::string::npos && b >= scan){
                    std::string n = buf.substr(b + 1, p - b - 2);
                    if(!n.empty() && n.back() == '+') n.pop_back();
                    if(!n.empty() && n.size() < 10 && n.find_first_not_of("0123456789") == std::string::npos){
                        lit = strtoul(n.c_str(), 0, 10);
                        has = true;
                    }
                }
            }
            if(!has){
                line = buf.substr(0, p);
                buf.erase(0, p + 2);
                scan = 0;
                return true;
            }
            if(buf.size() < p + 2 + lit) return false;
            scan = p + 2 + lit;
        }
    }
};

struct Parser {
    const std::string &s;
    size_t p = 0;
    bool bad = false;
    explicit Parser(const std::string &str, size_t at = 0) : s(str), p(at) {}
    std::vector<Tok> all(){
        std::vector<Tok> out;
        while(p < s.size() && !bad){
            if(s[p] == ' '){ p++; continue; }
            if(s[p] == ')'){ bad = true; break; }
            out.push_back(one());
        }
        return out;
    }
    Tok one(){
        Tok t;
        if(s[p] == '('){
            p++;
            t.t = Tok::LIST;
            while(p < s.size() && s[p] != ')' && !bad){
                if(s[p] == ' '){ p++; continue; }
                t.l.push_back(one());
            }
            if(p >= s.size()) bad = true; else p++;
            return t;
        }
        if(s[p] == '"'){
            t.t = Tok::STR;
            p++;
            while(p < s.size() && s[p] != '"'){
                if(s[p] == '\\' && p + 1 < s.size()) p++;
                t.s += s[p++];
            }
            if(p >= s.size()) bad = true; else p++;
            return t;
        }
        if(s[p] == '{'){
            size_t e = s.find('}', p);
            if(e != std::string::npos && s.compare(e + 1, 2, "\r\n") == 0){
                size_t n = strtoul(s.c_str() + p + 1, 0, 10);
                if(e + 3 + n > s.size()){ bad = true; p = s.size(); return t; }
                t.t = Tok::STR;
                t.s = s.substr(e + 3, n);
                p = e + 3 + n;
                return t;
            }
        }
        int depth = 0;
        while(p < s.size()){
            char c = s[p];
            if(c == '[') depth++;
            else if(c == ']') depth--;
            else if(depth <= 0 && (c == ' ' || c == '(' || c == ')')) break;
            t.s += c;
            p++;
        }
        if(t.s.empty()){ bad = true; p++; }
        return t;
    }
};

enum { F_ANSWERED = 1, F_FLAGGED = 2, F_DELETED = 4, F_SEEN = 8, F_DRAFT = 16, F_ALL = 31, F_RECENT = 32 };
static const char *const FLAG_NAMES[5] = {"\\Answered", "\\Flagged", "\\Deleted", "\\Seen", "\\Draft"};
inline std::string flags_str(int f){
    std::string o;
    for(int i = 0; i < 5; i++) if(f & (1 << i)){ if(!o.empty()) o += " "; o += FLAG_NAMES[i]; }
    return o;
}
inline int flags_of(const Tok &t){
    int f = 0;
    for(auto &x : t.l){
        for(int i = 0; i < 5; i++) if(!strcasecmp(x.s.c_str(), FLAG_NAMES[i])) f |= 1 << i;
        if(!strcasecmp(x.s.c_str(), "\\Recent")) f |= F_RECENT;
    }
    return f;
}
// ranges; '*' is `star`
inline std::vector<std::pair<uint32_t,uint32_t>> seqset(const std::string &s, uint32_t star){
    std::vector<std::pair<uint32_t,uint32_t>> out;
    size_t p = 0;
    while(p < s.size()){
        auto num = [&]()->uint32_t{
            if(s[p] == '*'){ p++; return star; }
            uint32_t v = 0;
            while(p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0');
            return v;
        };
        uint32_t a = num(), b = a;
        if(p < s.size() && s[p] == ':'){ p++; b = num(); }
        out.push_back({std::min(a, b), std::max(a, b)});
        if(p < s.size() && s[p] == ',') p++;
        else if(p < s.size()) break;
    }
    return out;
}
inline bool inset(const std::vector<std::pair<uint32_t,uint32_t>> &v, uint32_t x){
    for(auto &r : v) if(x >= r.first && x <= r.second) return true;
    return false;
}
inline std::string setstr(const std::vector<uint32_t> &v){
    // v sorted ascending
    std::string o;
    for(size_t i = 0; i < v.size();){
        size_t j = i;
        while(j + 1 < v.size() && v[j+1] == v[j] + 1) j++;
        if(!o.empty()) o += ",";
        o += std::to_string(v[i]);
        if(j > i) o += ":" + std::to_string(v[j]);
        i = j + 1;
    }
    return o;
}
inline std::string istr(const std::string &s){
    bool ok = !s.empty();
    for(unsigned char c : s) if(!isalnum(c) && c != '.' && c != '-' && c != '_' && c != '/') ok = false;
    if(ok) return s;
    std::string o = "\"";
    for(char c : s){ if(c == '"' || c == '\\') o += '\\'; o += c; }
    return o + "\"";
}
