// Shared by the program and its plugins: the registry, the log of what
// overriders did, and the table each module publishes when it is loaded.
#pragma once
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/mp11.hpp>
#include <type_traits>
#include <vector>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
namespace mp11 = boost::mp11;
#ifndef CONF
#define CONF 0
#endif
#if CONF == 0
struct Reg : om::default_registry::with<po::throw_error_handler> {};
#elif CONF == 1
struct Reg : om::indirect_registry::with<po::throw_error_handler> {};
#elif CONF == 2
struct Reg : om::registry<po::std_rtti, po::vptr_map<>, po::throw_error_handler, po::runtime_checks> {};
#elif CONF == 3
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#elif CONF == 4
struct Reg : om::registry<po::std_rtti, po::vptr_map<>, po::throw_error_handler, po::indirect_vptr> {};
#endif
constexpr bool INDIRECT = Reg::has_indirect_vptr;
template<class T> using VP = om::virtual_ptr<T, Reg>;

struct Step { int ov; bool has_next; };
struct Log { std::vector<Step> steps; bool deep = false; const void* full[4]; bool mangled = false; };
extern Log dl_log; // in the program

struct Module {
    void* (*make)(int cls);                       // classes of the module
    void (*kill)(int cls, void*);
    void* (*up)(int cls, void*, int target);      // null if not a base
    int (*call)(int method, void* const* args, int forms); // -1: ran; otherwise the kind of error
    void* (*vp_make)(int cls, void*);             // a virtual_ptr<cls>, kept by the program
    void (*vp_kill)(int cls, void*);
    int (*vp_call)(int method, void* const* vps);
    void (*init)();                               // null: this module does not call initialize
};
extern "C" void dl_loaded(int id, const Module*);
extern "C" void dl_unloaded(int id);
