// Stand-in for the jamolnng/argparse submodule, which is empty in this sandbox. It covers what
// liblsqecc's src/pipelines/slicer.cpp uses, with that library's observable conventions: options start with '-',
// the last option seen takes every following bare word as a value, short flags can be grouped, unknown options are
// an error, and -h/--help is always understood once enabled.
#ifndef VERIF_SHIM_ARGPARSE
#define VERIF_SHIM_ARGPARSE
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <cctype>
namespace argparse {
class ArgumentParser {
public:
    class Argument {
        friend class ArgumentParser;
        std::vector<std::string> names_, values_;
        std::string desc_;
        bool required_ = false, found_ = false;
        std::vector<std::string> strip() const {
            std::vector<std::string> r;
            for (auto n : names_) { while (!n.empty() && n[0] == '-') n.erase(0, 1); r.push_back(n); }
            return r;
        }
    public:
        Argument& name(const std::string& n) { names_.push_back(n); return *this; }
        Argument& names(std::vector<std::string> n) { names_.insert(names_.end(), n.begin(), n.end()); return *this; }
        Argument& description(const std::string& d) { desc_ = d; return *this; }
        Argument& required(bool r) { required_ = r; return *this; }
    };
    class Result {
        bool error_ = false; std::string what_;
    public:
        Result() = default;
        explicit Result(std::string w) : error_(true), what_(std::move(w)) {}
        operator bool() const { return error_; }
        const std::string& what() const { return what_; }
        friend std::ostream& operator<<(std::ostream& os, const Result& r) { return os << r.what_; }
    };
    ArgumentParser(const std::string& prog, const std::string& desc) : prog_(prog), desc_(desc) {}
    Argument& add_argument() { args_.emplace_back(); return args_.back(); }
    void enable_help() { add_argument().names({"-h", "--help"}).description("Shows this page"); help_ = true; }
    Result parse(int argc, const char* argv[]) {
        map_.clear();
        for (auto& a : args_) for (auto& n : a.strip()) {
            if (map_.count(n)) return Result("Duplicate of argument name: " + n);
            map_[n] = &a;
        }
        Argument* current = nullptr;
        for (int i = 1; i < argc; ++i) {
            std::string s = argv[i];
            if (s.empty()) continue;
            if (help_ && (s == "-h" || s == "--help")) { map_["help"]->found_ = true; current = nullptr; continue; }
            bool is_int = !s.empty() && std::all_of(s.begin() + (s[0] == '-' ? 1 : 0), s.end(), [](unsigned char c) { return std::isdigit(c); });
            if (s.size() >= 2 && s[0] == '-' && !is_int) {
                bool lng = s[1] == '-';
                std::string n = s.substr(lng ? 2 : 1), val; bool has_val = false;
                if (auto eq = n.find('='); eq != std::string::npos) { val = n.substr(eq + 1); n = n.substr(0, eq); has_val = true; if (val.empty()) return Result("Malformed argument: " + s); }
                std::vector<std::string> ns;
                if (lng || n.size() == 1) ns = {n}; else for (char c : n) ns.push_back(std::string(1, c));
                for (auto& k : ns) {
                    auto it = map_.find(k);
                    if (it == map_.end()) return Result("Unrecognized command line option '" + k + "'");
                    current = it->second; current->found_ = true;
                }
                if (has_val && current) { current->values_.push_back(val); current = nullptr; }
            } else if (current) current->values_.push_back(s);
        }
        if (help_ && map_["help"]->found_) return Result();
        for (auto& a : args_) if (a.required_ && !a.found_) return Result("Required argument not found: " + (a.names_.empty() ? "" : a.names_[0]));
        return Result();
    }
    bool exists(const std::string& n) const { auto it = map_.find(n); return it != map_.end() && it->second->found_; }
    template<class T> T get(const std::string& n) const {
        auto it = map_.find(n);
        T t{};
        if (it == map_.end() || it->second->values_.empty()) return t;
        if constexpr (std::is_same_v<T, std::string>) return it->second->values_[0];
        else { std::istringstream in(it->second->values_[0]); in >> t; return t; }
    }
    void print_help() const {
        std::cout << "Usage: " << prog_ << " [options...]" << std::endl << "Options:" << std::endl;
        for (auto& a : args_) {
            std::string n; for (auto& x : a.names_) n += (n.empty() ? "" : ", ") + x;
            std::cout << "    " << n; if (n.size() < 23) std::cout << std::string(23 - n.size(), ' ');
            std::cout << a.desc_ << (a.required_ ? " (Required)" : "") << std::endl;
        }
    }
private:
    std::string prog_, desc_; bool help_ = false;
    std::deque<Argument> args_;
    std::map<std::string, Argument*> map_;
};
}
#endif
