#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos
{
template<typename D, typename... P>
void sort(const View<D, P...>& v)
{
    standin::At place(standin::placeOf<P...>);
    std::sort(v.data(), v.data() + v.size());
}
template<typename Space, typename D, typename... P>
void sort(const Space&, const View<D, P...>& v)
{
    standin::At place(standin::placeOf<Space>);
    std::sort(v.data(), v.data() + v.size());
}
}
