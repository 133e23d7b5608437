// Included before every kernel source: all library headers first, then the
// floating-point types of the kernel sources become symbolic.
#pragma once
#include <bits/stdc++.h>
#include <Python.h>
#include <torch/all.h>
#include <torch/library.h>
#include "symf.h"

namespace at
{
    template <> inline SymF *TensorBase::mutable_data_ptr<SymF>() const
    {
        TORCH_CHECK(scalar_type() == kFloat, "expected scalar type Float");
        return reinterpret_cast<SymF *>(this->mutable_data_ptr());
    }
    template <> inline SymD *TensorBase::mutable_data_ptr<SymD>() const
    {
        TORCH_CHECK(scalar_type() == kDouble, "expected scalar type Double");
        return reinterpret_cast<SymD *>(this->mutable_data_ptr());
    }
    template <> inline SymF *TensorBase::data_ptr<SymF>() const { return mutable_data_ptr<SymF>(); }
    template <> inline SymD *TensorBase::data_ptr<SymD>() const { return mutable_data_ptr<SymD>(); }
    template <> inline const SymF *TensorBase::const_data_ptr<SymF>() const { return mutable_data_ptr<SymF>(); }
    template <> inline const SymD *TensorBase::const_data_ptr<SymD>() const { return mutable_data_ptr<SymD>(); }
    template <> inline const SymF *TensorBase::const_data_ptr<const SymF>() const { return mutable_data_ptr<SymF>(); }
    template <> inline const SymD *TensorBase::const_data_ptr<const SymD>() const { return mutable_data_ptr<SymD>(); }
} // namespace at

namespace symf
{
    template <typename T> struct to_sym { using type = T; };
    template <> struct to_sym<float> { using type = F; };
    template <> struct to_sym<double> { using type = D; };
} // namespace symf

#undef AT_PRIVATE_CASE_TYPE_USING_HINT
#define AT_PRIVATE_CASE_TYPE_USING_HINT(enum_type, HINT, ...)                                                          \
    case enum_type: {                                                                                                  \
        using HINT = symf::to_sym<c10::impl::ScalarTypeToCPPTypeT<enum_type>>::type;                                   \
        return __VA_ARGS__();                                                                                          \
    }
#undef TORCH_LIBRARY_IMPL
#define TORCH_LIBRARY_IMPL(ns, k, m) _TORCH_LIBRARY_IMPL(sym_##ns, k, m, C10_UID)
#define SYM_TORCH_LIBRARY(ns, m)                                                                                       \
    static void TORCH_LIBRARY_init_##ns(torch::Library &);                                                             \
    static const torch::detail::TorchLibraryInit TORCH_LIBRARY_static_init_##ns(                                       \
        torch::Library::DEF, &TORCH_LIBRARY_init_##ns, C10_STRINGIZE(ns), std::nullopt, __FILE__, __LINE__);           \
    void TORCH_LIBRARY_init_##ns(torch::Library &m)
#undef TORCH_LIBRARY
#define TORCH_LIBRARY(ns, m) SYM_TORCH_LIBRARY(sym_##ns, m)
#define PyInit__C __attribute__((weak)) PyInit__C
