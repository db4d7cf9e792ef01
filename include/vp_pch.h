/* precompiled once per build: library headers only, nothing of /repo */
#include "vp_pre.h"
#include <boost/numeric/ublas/io.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/vector_proxy.hpp>
// std::stringstream brings locales with it: a model that keeps what is
// inserted (integers, characters and strings), and ignores anything else.
#include <boost/geometry/geometry.hpp>
#include <boost/geometry/index/rtree.hpp>
#include <boost/geometry/geometries/polygon.hpp>
#ifdef VP_SYM
#include <sstream>
#include <type_traits>
namespace std {
struct vp_stringstream {
    std::string buf;
    std::string str() const { return buf; }
    template <class T> vp_stringstream& operator<<(const T& x) {
        if constexpr (std::is_same<T, char>::value) buf += x;
        else if constexpr (std::is_integral<T>::value) {
            char t[24]; int n = 0; bool neg = x < T(0); unsigned long v = neg ? 0ul - (unsigned long)x : (unsigned long)x;
            do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v);
            if (neg) buf += '-';
            while (n) buf += t[--n];
        } else if constexpr (std::is_convertible<const T&, std::string>::value) buf += std::string(x);
        return *this;
    }
    vp_stringstream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
}
#define stringstream vp_stringstream
#endif
