// Stand-in for the part of CLI11 that the srcml client uses (CLI11 is not available offline).
// Options run their check() and each() in the order of the command line.
#pragma once
#include <boost/optional.hpp>
#include <algorithm>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace CLI {

class Error : public std::runtime_error {
public:
    Error(const std::string& msg, int code) : std::runtime_error(msg), code_(code) {}
    int get_exit_code() const { return code_; }
private:
    int code_;
};
class ParseError : public Error { public: using Error::Error; };
class CallForHelp : public ParseError { public: CallForHelp() : ParseError("help", 0) {} };
class ExtrasError : public ParseError { public: using ParseError::ParseError; };

struct Range {
    int lo, hi;
    Range(int l, int h) : lo(l), hi(h) {}
    std::string operator()(std::string v) const {
        char* e = nullptr; long n = strtol(v.c_str(), &e, 10);
        if (!e || *e || v.empty() || n < lo || n > hi) return "Value " + v + " not in range";
        return "";
    }
};

class Option {
public:
    Option* group(std::string) { return this; }
    Option* type_name(std::string n) { type_name_ = n; return this; }
    Option* type_size(int n) { many_ = n < 0; return this; }
    Option* expected(int) { return this; }
    Option* needs(Option* o) { needs_.push_back(o); return this; }
    Option* excludes(Option* o) { excludes_.push_back(o); o->excludes_.push_back(this); return this; }
    template <typename F> Option* check(F f) { steps_.push_back([f](std::string v) { return std::string(f(v)); }); return this; }
    template <typename F> Option* each(F f) { steps_.push_back([f](std::string v) { f(v); return std::string(); }); return this; }
    bool empty() const { return count_ == 0; }
    int get_type_size() const { return flag_ ? 0 : 1; }
    std::string get_type_name() const { return type_name_; }

    std::string type_name_, names_, desc_;
    std::vector<Option*> needs_, excludes_;
    std::vector<std::function<std::string(std::string)>> steps_;
    std::function<bool(std::string)> store_;
    bool flag_ = false, many_ = false;
    int count_ = 0;
    void run(const std::string& v) {
        ++count_;
        for (auto& s : steps_) { std::string e = s(v); if (!e.empty()) throw ParseError(names_ + ": " + e, 105); }
        if (store_ && !store_(v)) throw ParseError("Could not convert: " + names_ + " = " + v, 104);
    }
};

class App;
class Formatter {
public:
    virtual ~Formatter() {}
    void column_width(size_t) {}
    std::string get_label(std::string s) const { return s; }
    virtual std::string make_usage(const App*, std::string) const { return ""; }
    virtual std::string make_option_opts(const Option*) const { return ""; }
    virtual std::string make_group(std::string, bool, std::vector<const Option*>) const { return ""; }
    virtual std::string make_option(const Option*, bool) const { return ""; }
};

namespace detail {
    template <typename T> typename std::enable_if<std::is_integral<T>::value, bool>::type conv(const std::string& v, T& o) {
        char* e = nullptr; long n = strtol(v.c_str(), &e, 10); if (v.empty() || *e) return false; o = (T) n; return true;
    }
    inline bool conv(const std::string& v, std::string& o) { o = v; return true; }
    template <typename T> bool conv(const std::string& v, boost::optional<T>& o) { T t{}; if (!conv(v, t)) return false; o = t; return true; }
    template <typename T> bool conv(const std::string& v, std::vector<T>& o) { T t{}; if (!conv(v, t)) return false; o.push_back(t); return true; }
}

class App {
public:
    App(std::string desc, std::string name) : desc_(desc), name_(name), formatter_(std::make_shared<Formatter>()) {}
    virtual ~App() {}
    void formatter(std::shared_ptr<Formatter> f) { formatter_ = f; }
    std::shared_ptr<Formatter> get_formatter() const { return formatter_; }
    Option* set_help_flag(std::string n, std::string d) { Option* o = add(n, d); o->flag_ = true; o->store_ = [](std::string) -> bool { throw CallForHelp(); }; return o; }
    Option* add_option(std::string n, std::string d) { return add(n, d); }
    template <typename T, typename = typename std::enable_if<!std::is_convertible<T&, std::string>::value || std::is_same<T, std::string>::value>::type>
    Option* add_option(std::string n, T& v, std::string d) { Option* o = add(n, d); o->store_ = [&v](std::string s) { return detail::conv(s, v); }; return o; }
    template <typename T> Option* add_option_function(std::string n, std::function<bool(std::string)> f, std::string d) { Option* o = add(n, d); o->store_ = f; return o; }
    template <typename T> typename std::enable_if<!std::is_same<T, std::string>::value, Option*>::type
    add_option_function(std::string n, std::function<void(const T&)>, std::string d) { return add(n, d); }
    Option* add_flag_callback(std::string n, std::function<void()> f, std::string d) { Option* o = add(n, d); o->flag_ = true; o->store_ = [f](std::string) { f(); return true; }; return o; }
    // a flag bound to an optional takes its value with "="
    template <typename T> Option* add_flag(std::string n, boost::optional<T>& v, std::string d) { Option* o = add(n, d); o->flag_ = true; o->store_ = [&v](std::string s) { return detail::conv(s.empty() ? std::string("1") : s, v); }; return o; }
    int exit(const Error& e) const {
        if (e.get_exit_code() == 0) std::cout << desc_ << footer_ << "\n";
        else std::cerr << (failure_message_ ? failure_message_(this, e) : std::string(e.what()) + "\n");
        return e.get_exit_code();
    }
    // arguments in reverse order
    void parse(std::vector<std::string> args) {
        bool only = false;
        while (!args.empty()) {
            std::string a = args.back(); args.pop_back();
            Option* o = nullptr; std::string val; bool has = false;
            if (!only && a == "--") { only = true; continue; }
            if (!only && a.size() > 2 && a[0] == '-' && a[1] == '-') {
                size_t q = a.find('='); std::string n = a.substr(0, q);
                if (q != std::string::npos) { has = true; val = a.substr(q + 1); }
                o = find(n);
            } else if (!only && a.size() > 1 && a[0] == '-' && a[1] != '-') {
                o = find(a.substr(0, 2));
                if (o && a.size() > 2) {
                    if (o->flag_) args.push_back("-" + a.substr(2)); else { has = true; val = a.substr(2); }
                }
            } else o = positional_;
            if (!o) throw ExtrasError("The following argument was not expected: " + a, 109);
            if (o == positional_) { o->run(a); continue; }
            if (!o->flag_ && !has) {
                if (args.empty()) throw ParseError(o->names_ + ": 1 required " + o->type_name_ + " missing", 106);
                val = args.back(); args.pop_back();
            }
            o->run(val);
        }
        for (auto& o : options_) if (o->count_) {
            for (auto* n : o->needs_) if (!n->count_) throw ParseError(o->names_ + " requires " + n->names_, 107);
            for (auto* n : o->excludes_) if (n->count_) throw ParseError(o->names_ + " excludes " + n->names_, 108);
        }
    }
protected:
    std::string desc_, name_, footer_;
    std::function<std::string(const App*, const Error&)> failure_message_;
private:
    Option* add(std::string n, std::string d) {
        options_.emplace_back(new Option); Option* o = options_.back().get(); o->names_ = n; o->desc_ = d;
        if (n[0] != '-') { positional_ = o; return o; }
        std::stringstream s(n); std::string one;
        while (std::getline(s, one, ',')) by_[one] = o;
        return o;
    }
    Option* find(const std::string& n) { auto i = by_.find(n); return i == by_.end() ? nullptr : i->second; }
    std::vector<std::unique_ptr<Option>> options_;
    std::map<std::string, Option*> by_;
    Option* positional_ = nullptr;
    std::shared_ptr<Formatter> formatter_;
};
}
