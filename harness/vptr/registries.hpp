// The registries the virtual_ptr and misuse harnesses run in, chosen by VARIANT.
#pragma once
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
namespace om = boost::openmethod;
namespace po = boost::openmethod::policies;
#ifndef VARIANT
#define VARIANT 0
#endif
#if VARIANT == 0   // hashed vector, direct
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler> {};
#elif VARIANT == 1 // hashed vector, direct, checked
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks> {};
#elif VARIANT == 2 // hashed vector, indirect
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::indirect_vptr> {};
#elif VARIANT == 3 // map, direct, checked
struct Reg : om::registry<po::std_rtti, po::vptr_map<>, po::throw_error_handler, po::runtime_checks> {};
#elif VARIANT == 4 // map, indirect, checked
struct Reg : om::registry<po::std_rtti, po::vptr_map<>, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#elif VARIANT == 5 // hashed vector, indirect, checked
struct Reg : om::registry<po::std_rtti, po::vptr_vector, po::fast_perfect_hash, po::throw_error_handler, po::runtime_checks, po::indirect_vptr> {};
#endif
constexpr bool INDIRECT = Reg::has_indirect_vptr, CHECKED = Reg::has_runtime_checks;
