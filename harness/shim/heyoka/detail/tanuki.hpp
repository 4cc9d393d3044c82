// Stand-in for heyoka's bundled tanuki (not installed here): a type-erasing wrapper with the same
// interface as far as kep3::planet uses it.  No serialization.
#pragma once
#include <memory>
#include <typeindex>
#include <typeinfo>
#include <utility>
#define TANUKI_S11N_WRAP_EXPORT_KEY(...)
#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(...)
#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                  \
    template <typename... KseArgs>                                                                                     \
    auto name(KseArgs &&...args) const                                                                                 \
    {                                                                                                                  \
        return static_cast<const Wrap *>(this)->kse_ptr()->name(std::forward<KseArgs>(args)...);                       \
    }
namespace tanuki
{
template <typename Default, typename Ref>
struct config {
    bool pointer_interface = true;
    using default_type = Default;
    using ref_type = Ref;
};
template <typename IFace, typename T>
struct holder : public IFace::template impl<IFace, holder<IFace, T>, T> {
    T m_value;
    explicit holder(T v) : m_value(std::move(v)) {}
};
template <typename Holder, typename U>
const auto &getval(const U *p)
{
    return static_cast<const Holder *>(p)->m_value;
}
template <typename IFace, auto Cfg>
class wrap : public decltype(Cfg)::ref_type::template impl<wrap<IFace, Cfg>>
{
    std::shared_ptr<IFace> m_p;
    std::type_index m_t;

public:
    wrap() : wrap(typename decltype(Cfg)::default_type{}) {}
    template <typename T>
        requires(!std::is_same_v<std::remove_cvref_t<T>, wrap>)
    explicit wrap(T x) : m_p(std::make_shared<holder<IFace, T>>(std::move(x))), m_t(typeid(T))
    {
    }
    const IFace *kse_ptr() const { return m_p.get(); }
    std::type_index kse_type() const { return m_t; }
    template <typename T>
    friend T *value_ptr(wrap &w)
    {
        auto *h = dynamic_cast<holder<IFace, T> *>(w.m_p.get());
        return h ? &h->m_value : nullptr;
    }
};
template <typename IFace, auto Cfg>
std::type_index value_type_index(const wrap<IFace, Cfg> &w)
{
    return w.kse_type();
}
} // namespace tanuki
