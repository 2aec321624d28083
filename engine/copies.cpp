// Copies and assigns every copyable class of the library, so that copy operations the compiler writes are analysed as well.
#include <type_traits>
#include "library.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
#include "library/Java/Security/MessageDigest/MD5MessageDigest.hpp"
#include "library/Java/Security/MessageDigest/SHA1MessageDigest.hpp"
using namespace Java::Lang;
using namespace Java::Util;
namespace verif {
template<class T> typename std::enable_if<std::is_copy_constructible<T>::value>::type copy(void *to, const T &from) { new (to) T(from); }
template<class T> typename std::enable_if<!std::is_copy_constructible<T>::value>::type copy(void *, const T &) {}
template<class T> typename std::enable_if<std::is_copy_assignable<T>::value>::type assign(T &to, const T &from) { to = from; }
template<class T> typename std::enable_if<!std::is_copy_assignable<T>::value>::type assign(T &, const T &) {}
template<class T> typename std::enable_if<std::is_destructible<T>::value>::type destroy(T *t) { t->~T(); }
template<class T> typename std::enable_if<!std::is_destructible<T>::value>::type destroy(T *) {}
template<class T> void use(void *p, T &a, const T &b, T *c) { copy<T>(p, b); assign<T>(a, b); destroy<T>(c); }
#define V(T) template void use<T>(void *, T &, const T &, T *);
V(Boolean) V(Bytes) V(Character) V(Double) V(Float) V(Integer) V(Long) V(Short) V(String) V(StringBuffer) V(StringBufferUnSafe) V(StringBuilder)
V(Throwable) V(Exception) V(Error) V(RuntimeException) V(Thread) V(Java::IO::IOException)
V(Java::Net::URL) V(Java::Net::URLConnection) V(Java::Net::HttpURLConnection)
V(Java::Security::MD5MessageDigest) V(Java::Security::SHA1MessageDigest) V(Java::Security::MessageDigest)
V(Java::Text::SimpleDateFormat) V(Java::Util::Base64::Encoder) V(Java::Util::Base64::Decoder) V(BitSet) V(Date) V(Random) V(TimeZone) V(UUID)
V(Java::Util::Concurrent::Semaphore) V(Javax::Ws::Rs::Core::MediaType)
V(ArrayList<String>) V(LinkedList<String>) V(Vector<String>) V(Stack<String>) V(PriorityQueue<String>) V(Array<String>)
}
namespace verif {
typedef HashMap<String, String> HM; typedef Java::Util::Concurrent::ConcurrentHashMap<String, String> CHM;
V(HM) V(CHM)
}
