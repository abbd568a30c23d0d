// Objects described with the macros of Json.h, of every size these support.
// Generated by dev/gen_jsonobj.py.
#include "vf.h"
#include <cstdint>
#include <map>
#include <bcl/Json.h>

extern "C" void spec_text(const std::string *S, const char *Text) noexcept;  // *S has the characters of Text
extern "C" void spec_name(std::string *S) noexcept;              // *S becomes an unknown text
extern "C" bool spec_same(const std::string *A, const std::string *B) noexcept;

template<int N> struct V { void *P; };
// The cells of an object in order.
template<class T> struct Cells;
template<class... T> struct Cells<bcl::StaticMap<T...>> { using Type = std::tuple<T...>; };
template<class A, class B> inline constexpr bool Same = std::is_same<A, B>::value;
template<class A, class B> inline constexpr bool Is = std::is_base_of<B, A>::value;
template<class T> using Bare = std::remove_cv_t<std::remove_reference_t<T>>;

JSON_OBJECT_BEGIN(S1)
JSON_OBJECT_PAIR(S1, n1, BCL_JOIN(std::pair<V<1>, V<1>>))
JSON_OBJECT_END(S1)
JSON_OBJECT_BEGIN(S2)
JSON_OBJECT_PAIR_2(S2, n1, BCL_JOIN(std::pair<V<2>, V<1>>), n2, BCL_JOIN(std::pair<V<2>, V<2>>))
JSON_OBJECT_END(S2)
JSON_OBJECT_BEGIN(S3)
JSON_OBJECT_PAIR_3(S3, n1, BCL_JOIN(std::pair<V<3>, V<1>>), n2, V<302>, n3, BCL_JOIN(std::pair<V<3>, V<3>>))
JSON_OBJECT_END(S3)
JSON_OBJECT_BEGIN(S4)
JSON_OBJECT_PAIR_4(S4, n1, BCL_JOIN(std::pair<V<4>, V<1>>), n2, BCL_JOIN(std::pair<V<4>, V<2>>), n3, V<403>, n4, BCL_JOIN(std::pair<V<4>, V<4>>))
JSON_OBJECT_END(S4)
JSON_OBJECT_BEGIN(S5)
JSON_OBJECT_PAIR_5(S5, n1, BCL_JOIN(std::pair<V<5>, V<1>>), n2, BCL_JOIN(std::pair<V<5>, V<2>>), n3, V<503>, n4, V<504>, n5, BCL_JOIN(std::pair<V<5>, V<5>>))
JSON_OBJECT_END(S5)
JSON_OBJECT_BEGIN(S6)
JSON_OBJECT_PAIR_6(S6, n1, BCL_JOIN(std::pair<V<6>, V<1>>), n2, V<602>, n3, BCL_JOIN(std::pair<V<6>, V<3>>), n4, V<604>, n5, V<605>, n6, BCL_JOIN(std::pair<V<6>, V<6>>))
JSON_OBJECT_END(S6)
JSON_OBJECT_BEGIN(S7)
JSON_OBJECT_PAIR_7(S7, n1, BCL_JOIN(std::pair<V<7>, V<1>>), n2, V<702>, n3, BCL_JOIN(std::pair<V<7>, V<3>>), n4, V<704>, n5, V<705>, n6, V<706>, n7, BCL_JOIN(std::pair<V<7>, V<7>>))
JSON_OBJECT_END(S7)
JSON_OBJECT_BEGIN(S8)
JSON_OBJECT_PAIR_8(S8, n1, BCL_JOIN(std::pair<V<8>, V<1>>), n2, V<802>, n3, V<803>, n4, BCL_JOIN(std::pair<V<8>, V<4>>), n5, V<805>, n6, V<806>, n7, V<807>, n8, BCL_JOIN(std::pair<V<8>, V<8>>))
JSON_OBJECT_END(S8)
JSON_OBJECT_BEGIN(S9)
JSON_OBJECT_PAIR_9(S9, n1, BCL_JOIN(std::pair<V<9>, V<1>>), n2, V<902>, n3, V<903>, n4, BCL_JOIN(std::pair<V<9>, V<4>>), n5, V<905>, n6, V<906>, n7, V<907>, n8, V<908>, n9, BCL_JOIN(std::pair<V<9>, V<9>>))
JSON_OBJECT_END(S9)
JSON_OBJECT_BEGIN(S10)
JSON_OBJECT_PAIR_10(S10, n1, BCL_JOIN(std::pair<V<10>, V<1>>), n2, V<1002>, n3, V<1003>, n4, V<1004>, n5, BCL_JOIN(std::pair<V<10>, V<5>>), n6, V<1006>, n7, V<1007>, n8, V<1008>, n9, V<1009>, n10, BCL_JOIN(std::pair<V<10>, V<10>>))
JSON_OBJECT_END(S10)
JSON_OBJECT_BEGIN(S11)
JSON_OBJECT_PAIR_11(S11, n1, BCL_JOIN(std::pair<V<11>, V<1>>), n2, V<1102>, n3, V<1103>, n4, V<1104>, n5, BCL_JOIN(std::pair<V<11>, V<5>>), n6, V<1106>, n7, V<1107>, n8, V<1108>, n9, V<1109>, n10, V<1110>, n11, BCL_JOIN(std::pair<V<11>, V<11>>))
JSON_OBJECT_END(S11)
JSON_OBJECT_BEGIN(S12)
JSON_OBJECT_PAIR_12(S12, n1, BCL_JOIN(std::pair<V<12>, V<1>>), n2, V<1202>, n3, V<1203>, n4, V<1204>, n5, V<1205>, n6, BCL_JOIN(std::pair<V<12>, V<6>>), n7, V<1207>, n8, V<1208>, n9, V<1209>, n10, V<1210>, n11, V<1211>, n12, BCL_JOIN(std::pair<V<12>, V<12>>))
JSON_OBJECT_END(S12)
JSON_OBJECT_BEGIN(S13)
JSON_OBJECT_PAIR_13(S13, n1, BCL_JOIN(std::pair<V<13>, V<1>>), n2, V<1302>, n3, V<1303>, n4, V<1304>, n5, V<1305>, n6, BCL_JOIN(std::pair<V<13>, V<6>>), n7, V<1307>, n8, V<1308>, n9, V<1309>, n10, V<1310>, n11, V<1311>, n12, V<1312>, n13, BCL_JOIN(std::pair<V<13>, V<13>>))
JSON_OBJECT_END(S13)
JSON_OBJECT_BEGIN(S14)
JSON_OBJECT_PAIR_14(S14, n1, BCL_JOIN(std::pair<V<14>, V<1>>), n2, V<1402>, n3, V<1403>, n4, V<1404>, n5, V<1405>, n6, V<1406>, n7, BCL_JOIN(std::pair<V<14>, V<7>>), n8, V<1408>, n9, V<1409>, n10, V<1410>, n11, V<1411>, n12, V<1412>, n13, V<1413>, n14, BCL_JOIN(std::pair<V<14>, V<14>>))
JSON_OBJECT_END(S14)
JSON_OBJECT_BEGIN(S15)
JSON_OBJECT_PAIR_15(S15, n1, BCL_JOIN(std::pair<V<15>, V<1>>), n2, V<1502>, n3, V<1503>, n4, V<1504>, n5, V<1505>, n6, V<1506>, n7, BCL_JOIN(std::pair<V<15>, V<7>>), n8, V<1508>, n9, V<1509>, n10, V<1510>, n11, V<1511>, n12, V<1512>, n13, V<1513>, n14, V<1514>, n15, BCL_JOIN(std::pair<V<15>, V<15>>))
JSON_OBJECT_END(S15)
JSON_OBJECT_BEGIN(S16)
JSON_OBJECT_PAIR_16(S16, n1, BCL_JOIN(std::pair<V<16>, V<1>>), n2, V<1602>, n3, V<1603>, n4, V<1604>, n5, V<1605>, n6, V<1606>, n7, V<1607>, n8, BCL_JOIN(std::pair<V<16>, V<8>>), n9, V<1609>, n10, V<1610>, n11, V<1611>, n12, V<1612>, n13, V<1613>, n14, V<1614>, n15, V<1615>, n16, BCL_JOIN(std::pair<V<16>, V<16>>))
JSON_OBJECT_END(S16)
JSON_OBJECT_BEGIN(S17)
JSON_OBJECT_PAIR_17(S17, n1, BCL_JOIN(std::pair<V<17>, V<1>>), n2, V<1702>, n3, V<1703>, n4, V<1704>, n5, V<1705>, n6, V<1706>, n7, V<1707>, n8, BCL_JOIN(std::pair<V<17>, V<8>>), n9, V<1709>, n10, V<1710>, n11, V<1711>, n12, V<1712>, n13, V<1713>, n14, V<1714>, n15, V<1715>, n16, V<1716>, n17, BCL_JOIN(std::pair<V<17>, V<17>>))
JSON_OBJECT_END(S17)
JSON_OBJECT_BEGIN(S18)
JSON_OBJECT_PAIR_18(S18, n1, BCL_JOIN(std::pair<V<18>, V<1>>), n2, V<1802>, n3, V<1803>, n4, V<1804>, n5, V<1805>, n6, V<1806>, n7, V<1807>, n8, V<1808>, n9, BCL_JOIN(std::pair<V<18>, V<9>>), n10, V<1810>, n11, V<1811>, n12, V<1812>, n13, V<1813>, n14, V<1814>, n15, V<1815>, n16, V<1816>, n17, V<1817>, n18, BCL_JOIN(std::pair<V<18>, V<18>>))
JSON_OBJECT_END(S18)
JSON_OBJECT_BEGIN(S19)
JSON_OBJECT_PAIR_19(S19, n1, BCL_JOIN(std::pair<V<19>, V<1>>), n2, V<1902>, n3, V<1903>, n4, V<1904>, n5, V<1905>, n6, V<1906>, n7, V<1907>, n8, V<1908>, n9, BCL_JOIN(std::pair<V<19>, V<9>>), n10, V<1910>, n11, V<1911>, n12, V<1912>, n13, V<1913>, n14, V<1914>, n15, V<1915>, n16, V<1916>, n17, V<1917>, n18, V<1918>, n19, BCL_JOIN(std::pair<V<19>, V<19>>))
JSON_OBJECT_END(S19)
JSON_OBJECT_BEGIN(S20)
JSON_OBJECT_PAIR_20(S20, n1, BCL_JOIN(std::pair<V<20>, V<1>>), n2, V<2002>, n3, V<2003>, n4, V<2004>, n5, V<2005>, n6, V<2006>, n7, V<2007>, n8, V<2008>, n9, V<2009>, n10, BCL_JOIN(std::pair<V<20>, V<10>>), n11, V<2011>, n12, V<2012>, n13, V<2013>, n14, V<2014>, n15, V<2015>, n16, V<2016>, n17, V<2017>, n18, V<2018>, n19, V<2019>, n20, BCL_JOIN(std::pair<V<20>, V<20>>))
JSON_OBJECT_END(S20)
JSON_OBJECT_BEGIN(S21)
JSON_OBJECT_PAIR_21(S21, n1, BCL_JOIN(std::pair<V<21>, V<1>>), n2, V<2102>, n3, V<2103>, n4, V<2104>, n5, V<2105>, n6, V<2106>, n7, V<2107>, n8, V<2108>, n9, V<2109>, n10, BCL_JOIN(std::pair<V<21>, V<10>>), n11, V<2111>, n12, V<2112>, n13, V<2113>, n14, V<2114>, n15, V<2115>, n16, V<2116>, n17, V<2117>, n18, V<2118>, n19, V<2119>, n20, V<2120>, n21, BCL_JOIN(std::pair<V<21>, V<21>>))
JSON_OBJECT_END(S21)
JSON_OBJECT_BEGIN(S22)
JSON_OBJECT_PAIR_22(S22, n1, BCL_JOIN(std::pair<V<22>, V<1>>), n2, V<2202>, n3, V<2203>, n4, V<2204>, n5, V<2205>, n6, V<2206>, n7, V<2207>, n8, V<2208>, n9, V<2209>, n10, V<2210>, n11, BCL_JOIN(std::pair<V<22>, V<11>>), n12, V<2212>, n13, V<2213>, n14, V<2214>, n15, V<2215>, n16, V<2216>, n17, V<2217>, n18, V<2218>, n19, V<2219>, n20, V<2220>, n21, V<2221>, n22, BCL_JOIN(std::pair<V<22>, V<22>>))
JSON_OBJECT_END(S22)
JSON_OBJECT_BEGIN(S23)
JSON_OBJECT_PAIR_23(S23, n1, BCL_JOIN(std::pair<V<23>, V<1>>), n2, V<2302>, n3, V<2303>, n4, V<2304>, n5, V<2305>, n6, V<2306>, n7, V<2307>, n8, V<2308>, n9, V<2309>, n10, V<2310>, n11, BCL_JOIN(std::pair<V<23>, V<11>>), n12, V<2312>, n13, V<2313>, n14, V<2314>, n15, V<2315>, n16, V<2316>, n17, V<2317>, n18, V<2318>, n19, V<2319>, n20, V<2320>, n21, V<2321>, n22, V<2322>, n23, BCL_JOIN(std::pair<V<23>, V<23>>))
JSON_OBJECT_END(S23)
JSON_OBJECT_BEGIN(S24)
JSON_OBJECT_PAIR_24(S24, n1, BCL_JOIN(std::pair<V<24>, V<1>>), n2, V<2402>, n3, V<2403>, n4, V<2404>, n5, V<2405>, n6, V<2406>, n7, V<2407>, n8, V<2408>, n9, V<2409>, n10, V<2410>, n11, V<2411>, n12, BCL_JOIN(std::pair<V<24>, V<12>>), n13, V<2413>, n14, V<2414>, n15, V<2415>, n16, V<2416>, n17, V<2417>, n18, V<2418>, n19, V<2419>, n20, V<2420>, n21, V<2421>, n22, V<2422>, n23, V<2423>, n24, BCL_JOIN(std::pair<V<24>, V<24>>))
JSON_OBJECT_END(S24)
JSON_OBJECT_BEGIN(S25)
JSON_OBJECT_PAIR_25(S25, n1, BCL_JOIN(std::pair<V<25>, V<1>>), n2, V<2502>, n3, V<2503>, n4, V<2504>, n5, V<2505>, n6, V<2506>, n7, V<2507>, n8, V<2508>, n9, V<2509>, n10, V<2510>, n11, V<2511>, n12, BCL_JOIN(std::pair<V<25>, V<12>>), n13, V<2513>, n14, V<2514>, n15, V<2515>, n16, V<2516>, n17, V<2517>, n18, V<2518>, n19, V<2519>, n20, V<2520>, n21, V<2521>, n22, V<2522>, n23, V<2523>, n24, V<2524>, n25, BCL_JOIN(std::pair<V<25>, V<25>>))
JSON_OBJECT_END(S25)
JSON_OBJECT_BEGIN(S26)
JSON_OBJECT_PAIR_26(S26, n1, BCL_JOIN(std::pair<V<26>, V<1>>), n2, V<2602>, n3, V<2603>, n4, V<2604>, n5, V<2605>, n6, V<2606>, n7, V<2607>, n8, V<2608>, n9, V<2609>, n10, V<2610>, n11, V<2611>, n12, V<2612>, n13, BCL_JOIN(std::pair<V<26>, V<13>>), n14, V<2614>, n15, V<2615>, n16, V<2616>, n17, V<2617>, n18, V<2618>, n19, V<2619>, n20, V<2620>, n21, V<2621>, n22, V<2622>, n23, V<2623>, n24, V<2624>, n25, V<2625>, n26, BCL_JOIN(std::pair<V<26>, V<26>>))
JSON_OBJECT_END(S26)
JSON_OBJECT_BEGIN(S27)
JSON_OBJECT_PAIR_27(S27, n1, BCL_JOIN(std::pair<V<27>, V<1>>), n2, V<2702>, n3, V<2703>, n4, V<2704>, n5, V<2705>, n6, V<2706>, n7, V<2707>, n8, V<2708>, n9, V<2709>, n10, V<2710>, n11, V<2711>, n12, V<2712>, n13, BCL_JOIN(std::pair<V<27>, V<13>>), n14, V<2714>, n15, V<2715>, n16, V<2716>, n17, V<2717>, n18, V<2718>, n19, V<2719>, n20, V<2720>, n21, V<2721>, n22, V<2722>, n23, V<2723>, n24, V<2724>, n25, V<2725>, n26, V<2726>, n27, BCL_JOIN(std::pair<V<27>, V<27>>))
JSON_OBJECT_END(S27)
JSON_OBJECT_BEGIN(S28)
JSON_OBJECT_PAIR_28(S28, n1, BCL_JOIN(std::pair<V<28>, V<1>>), n2, V<2802>, n3, V<2803>, n4, V<2804>, n5, V<2805>, n6, V<2806>, n7, V<2807>, n8, V<2808>, n9, V<2809>, n10, V<2810>, n11, V<2811>, n12, V<2812>, n13, V<2813>, n14, BCL_JOIN(std::pair<V<28>, V<14>>), n15, V<2815>, n16, V<2816>, n17, V<2817>, n18, V<2818>, n19, V<2819>, n20, V<2820>, n21, V<2821>, n22, V<2822>, n23, V<2823>, n24, V<2824>, n25, V<2825>, n26, V<2826>, n27, V<2827>, n28, BCL_JOIN(std::pair<V<28>, V<28>>))
JSON_OBJECT_END(S28)
JSON_OBJECT_BEGIN(S29)
JSON_OBJECT_PAIR_29(S29, n1, BCL_JOIN(std::pair<V<29>, V<1>>), n2, V<2902>, n3, V<2903>, n4, V<2904>, n5, V<2905>, n6, V<2906>, n7, V<2907>, n8, V<2908>, n9, V<2909>, n10, V<2910>, n11, V<2911>, n12, V<2912>, n13, V<2913>, n14, BCL_JOIN(std::pair<V<29>, V<14>>), n15, V<2915>, n16, V<2916>, n17, V<2917>, n18, V<2918>, n19, V<2919>, n20, V<2920>, n21, V<2921>, n22, V<2922>, n23, V<2923>, n24, V<2924>, n25, V<2925>, n26, V<2926>, n27, V<2927>, n28, V<2928>, n29, BCL_JOIN(std::pair<V<29>, V<29>>))
JSON_OBJECT_END(S29)
JSON_OBJECT_BEGIN(S30)
JSON_OBJECT_PAIR_30(S30, n1, BCL_JOIN(std::pair<V<30>, V<1>>), n2, V<3002>, n3, V<3003>, n4, V<3004>, n5, V<3005>, n6, V<3006>, n7, V<3007>, n8, V<3008>, n9, V<3009>, n10, V<3010>, n11, V<3011>, n12, V<3012>, n13, V<3013>, n14, V<3014>, n15, BCL_JOIN(std::pair<V<30>, V<15>>), n16, V<3016>, n17, V<3017>, n18, V<3018>, n19, V<3019>, n20, V<3020>, n21, V<3021>, n22, V<3022>, n23, V<3023>, n24, V<3024>, n25, V<3025>, n26, V<3026>, n27, V<3027>, n28, V<3028>, n29, V<3029>, n30, BCL_JOIN(std::pair<V<30>, V<30>>))
JSON_OBJECT_END(S30)
JSON_OBJECT_BEGIN(R1)
JSON_OBJECT_ROOT_PAIR(R1, n1, BCL_JOIN(std::pair<V<1>, V<1>>))
R1() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R1)
JSON_OBJECT_BEGIN(R2)
JSON_OBJECT_ROOT_PAIR_2(R2, n1, BCL_JOIN(std::pair<V<2>, V<1>>), n2, BCL_JOIN(std::pair<V<2>, V<2>>))
R2() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R2)
JSON_OBJECT_BEGIN(R3)
JSON_OBJECT_ROOT_PAIR_3(R3, n1, BCL_JOIN(std::pair<V<3>, V<1>>), n2, V<302>, n3, BCL_JOIN(std::pair<V<3>, V<3>>))
R3() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R3)
JSON_OBJECT_BEGIN(R4)
JSON_OBJECT_ROOT_PAIR_4(R4, n1, BCL_JOIN(std::pair<V<4>, V<1>>), n2, BCL_JOIN(std::pair<V<4>, V<2>>), n3, V<403>, n4, BCL_JOIN(std::pair<V<4>, V<4>>))
R4() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R4)
JSON_OBJECT_BEGIN(R5)
JSON_OBJECT_ROOT_PAIR_5(R5, n1, BCL_JOIN(std::pair<V<5>, V<1>>), n2, BCL_JOIN(std::pair<V<5>, V<2>>), n3, V<503>, n4, V<504>, n5, BCL_JOIN(std::pair<V<5>, V<5>>))
R5() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R5)
JSON_OBJECT_BEGIN(R6)
JSON_OBJECT_ROOT_PAIR_6(R6, n1, BCL_JOIN(std::pair<V<6>, V<1>>), n2, V<602>, n3, BCL_JOIN(std::pair<V<6>, V<3>>), n4, V<604>, n5, V<605>, n6, BCL_JOIN(std::pair<V<6>, V<6>>))
R6() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R6)
JSON_OBJECT_BEGIN(R7)
JSON_OBJECT_ROOT_PAIR_7(R7, n1, BCL_JOIN(std::pair<V<7>, V<1>>), n2, V<702>, n3, BCL_JOIN(std::pair<V<7>, V<3>>), n4, V<704>, n5, V<705>, n6, V<706>, n7, BCL_JOIN(std::pair<V<7>, V<7>>))
R7() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R7)
JSON_OBJECT_BEGIN(R8)
JSON_OBJECT_ROOT_PAIR_8(R8, n1, BCL_JOIN(std::pair<V<8>, V<1>>), n2, V<802>, n3, V<803>, n4, BCL_JOIN(std::pair<V<8>, V<4>>), n5, V<805>, n6, V<806>, n7, V<807>, n8, BCL_JOIN(std::pair<V<8>, V<8>>))
R8() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R8)
JSON_OBJECT_BEGIN(R9)
JSON_OBJECT_ROOT_PAIR_9(R9, n1, BCL_JOIN(std::pair<V<9>, V<1>>), n2, V<902>, n3, V<903>, n4, BCL_JOIN(std::pair<V<9>, V<4>>), n5, V<905>, n6, V<906>, n7, V<907>, n8, V<908>, n9, BCL_JOIN(std::pair<V<9>, V<9>>))
R9() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R9)
JSON_OBJECT_BEGIN(R10)
JSON_OBJECT_ROOT_PAIR_10(R10, n1, BCL_JOIN(std::pair<V<10>, V<1>>), n2, V<1002>, n3, V<1003>, n4, V<1004>, n5, BCL_JOIN(std::pair<V<10>, V<5>>), n6, V<1006>, n7, V<1007>, n8, V<1008>, n9, V<1009>, n10, BCL_JOIN(std::pair<V<10>, V<10>>))
R10() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R10)
JSON_OBJECT_BEGIN(R11)
JSON_OBJECT_ROOT_PAIR_11(R11, n1, BCL_JOIN(std::pair<V<11>, V<1>>), n2, V<1102>, n3, V<1103>, n4, V<1104>, n5, BCL_JOIN(std::pair<V<11>, V<5>>), n6, V<1106>, n7, V<1107>, n8, V<1108>, n9, V<1109>, n10, V<1110>, n11, BCL_JOIN(std::pair<V<11>, V<11>>))
R11() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R11)
JSON_OBJECT_BEGIN(R12)
JSON_OBJECT_ROOT_PAIR_12(R12, n1, BCL_JOIN(std::pair<V<12>, V<1>>), n2, V<1202>, n3, V<1203>, n4, V<1204>, n5, V<1205>, n6, BCL_JOIN(std::pair<V<12>, V<6>>), n7, V<1207>, n8, V<1208>, n9, V<1209>, n10, V<1210>, n11, V<1211>, n12, BCL_JOIN(std::pair<V<12>, V<12>>))
R12() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R12)
JSON_OBJECT_BEGIN(R13)
JSON_OBJECT_ROOT_PAIR_13(R13, n1, BCL_JOIN(std::pair<V<13>, V<1>>), n2, V<1302>, n3, V<1303>, n4, V<1304>, n5, V<1305>, n6, BCL_JOIN(std::pair<V<13>, V<6>>), n7, V<1307>, n8, V<1308>, n9, V<1309>, n10, V<1310>, n11, V<1311>, n12, V<1312>, n13, BCL_JOIN(std::pair<V<13>, V<13>>))
R13() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R13)
JSON_OBJECT_BEGIN(R14)
JSON_OBJECT_ROOT_PAIR_14(R14, n1, BCL_JOIN(std::pair<V<14>, V<1>>), n2, V<1402>, n3, V<1403>, n4, V<1404>, n5, V<1405>, n6, V<1406>, n7, BCL_JOIN(std::pair<V<14>, V<7>>), n8, V<1408>, n9, V<1409>, n10, V<1410>, n11, V<1411>, n12, V<1412>, n13, V<1413>, n14, BCL_JOIN(std::pair<V<14>, V<14>>))
R14() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R14)
JSON_OBJECT_BEGIN(R15)
JSON_OBJECT_ROOT_PAIR_15(R15, n1, BCL_JOIN(std::pair<V<15>, V<1>>), n2, V<1502>, n3, V<1503>, n4, V<1504>, n5, V<1505>, n6, V<1506>, n7, BCL_JOIN(std::pair<V<15>, V<7>>), n8, V<1508>, n9, V<1509>, n10, V<1510>, n11, V<1511>, n12, V<1512>, n13, V<1513>, n14, V<1514>, n15, BCL_JOIN(std::pair<V<15>, V<15>>))
R15() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R15)
JSON_OBJECT_BEGIN(R16)
JSON_OBJECT_ROOT_PAIR_16(R16, n1, BCL_JOIN(std::pair<V<16>, V<1>>), n2, V<1602>, n3, V<1603>, n4, V<1604>, n5, V<1605>, n6, V<1606>, n7, V<1607>, n8, BCL_JOIN(std::pair<V<16>, V<8>>), n9, V<1609>, n10, V<1610>, n11, V<1611>, n12, V<1612>, n13, V<1613>, n14, V<1614>, n15, V<1615>, n16, BCL_JOIN(std::pair<V<16>, V<16>>))
R16() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R16)
JSON_OBJECT_BEGIN(R17)
JSON_OBJECT_ROOT_PAIR_17(R17, n1, BCL_JOIN(std::pair<V<17>, V<1>>), n2, V<1702>, n3, V<1703>, n4, V<1704>, n5, V<1705>, n6, V<1706>, n7, V<1707>, n8, BCL_JOIN(std::pair<V<17>, V<8>>), n9, V<1709>, n10, V<1710>, n11, V<1711>, n12, V<1712>, n13, V<1713>, n14, V<1714>, n15, V<1715>, n16, V<1716>, n17, BCL_JOIN(std::pair<V<17>, V<17>>))
R17() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R17)
JSON_OBJECT_BEGIN(R18)
JSON_OBJECT_ROOT_PAIR_18(R18, n1, BCL_JOIN(std::pair<V<18>, V<1>>), n2, V<1802>, n3, V<1803>, n4, V<1804>, n5, V<1805>, n6, V<1806>, n7, V<1807>, n8, V<1808>, n9, BCL_JOIN(std::pair<V<18>, V<9>>), n10, V<1810>, n11, V<1811>, n12, V<1812>, n13, V<1813>, n14, V<1814>, n15, V<1815>, n16, V<1816>, n17, V<1817>, n18, BCL_JOIN(std::pair<V<18>, V<18>>))
R18() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R18)
JSON_OBJECT_BEGIN(R19)
JSON_OBJECT_ROOT_PAIR_19(R19, n1, BCL_JOIN(std::pair<V<19>, V<1>>), n2, V<1902>, n3, V<1903>, n4, V<1904>, n5, V<1905>, n6, V<1906>, n7, V<1907>, n8, V<1908>, n9, BCL_JOIN(std::pair<V<19>, V<9>>), n10, V<1910>, n11, V<1911>, n12, V<1912>, n13, V<1913>, n14, V<1914>, n15, V<1915>, n16, V<1916>, n17, V<1917>, n18, V<1918>, n19, BCL_JOIN(std::pair<V<19>, V<19>>))
R19() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R19)
JSON_OBJECT_BEGIN(R20)
JSON_OBJECT_ROOT_PAIR_20(R20, n1, BCL_JOIN(std::pair<V<20>, V<1>>), n2, V<2002>, n3, V<2003>, n4, V<2004>, n5, V<2005>, n6, V<2006>, n7, V<2007>, n8, V<2008>, n9, V<2009>, n10, BCL_JOIN(std::pair<V<20>, V<10>>), n11, V<2011>, n12, V<2012>, n13, V<2013>, n14, V<2014>, n15, V<2015>, n16, V<2016>, n17, V<2017>, n18, V<2018>, n19, V<2019>, n20, BCL_JOIN(std::pair<V<20>, V<20>>))
R20() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R20)
JSON_OBJECT_BEGIN(R21)
JSON_OBJECT_ROOT_PAIR_21(R21, n1, BCL_JOIN(std::pair<V<21>, V<1>>), n2, V<2102>, n3, V<2103>, n4, V<2104>, n5, V<2105>, n6, V<2106>, n7, V<2107>, n8, V<2108>, n9, V<2109>, n10, BCL_JOIN(std::pair<V<21>, V<10>>), n11, V<2111>, n12, V<2112>, n13, V<2113>, n14, V<2114>, n15, V<2115>, n16, V<2116>, n17, V<2117>, n18, V<2118>, n19, V<2119>, n20, V<2120>, n21, BCL_JOIN(std::pair<V<21>, V<21>>))
R21() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R21)
JSON_OBJECT_BEGIN(R22)
JSON_OBJECT_ROOT_PAIR_22(R22, n1, BCL_JOIN(std::pair<V<22>, V<1>>), n2, V<2202>, n3, V<2203>, n4, V<2204>, n5, V<2205>, n6, V<2206>, n7, V<2207>, n8, V<2208>, n9, V<2209>, n10, V<2210>, n11, BCL_JOIN(std::pair<V<22>, V<11>>), n12, V<2212>, n13, V<2213>, n14, V<2214>, n15, V<2215>, n16, V<2216>, n17, V<2217>, n18, V<2218>, n19, V<2219>, n20, V<2220>, n21, V<2221>, n22, BCL_JOIN(std::pair<V<22>, V<22>>))
R22() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R22)
JSON_OBJECT_BEGIN(R23)
JSON_OBJECT_ROOT_PAIR_23(R23, n1, BCL_JOIN(std::pair<V<23>, V<1>>), n2, V<2302>, n3, V<2303>, n4, V<2304>, n5, V<2305>, n6, V<2306>, n7, V<2307>, n8, V<2308>, n9, V<2309>, n10, V<2310>, n11, BCL_JOIN(std::pair<V<23>, V<11>>), n12, V<2312>, n13, V<2313>, n14, V<2314>, n15, V<2315>, n16, V<2316>, n17, V<2317>, n18, V<2318>, n19, V<2319>, n20, V<2320>, n21, V<2321>, n22, V<2322>, n23, BCL_JOIN(std::pair<V<23>, V<23>>))
R23() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R23)
JSON_OBJECT_BEGIN(R24)
JSON_OBJECT_ROOT_PAIR_24(R24, n1, BCL_JOIN(std::pair<V<24>, V<1>>), n2, V<2402>, n3, V<2403>, n4, V<2404>, n5, V<2405>, n6, V<2406>, n7, V<2407>, n8, V<2408>, n9, V<2409>, n10, V<2410>, n11, V<2411>, n12, BCL_JOIN(std::pair<V<24>, V<12>>), n13, V<2413>, n14, V<2414>, n15, V<2415>, n16, V<2416>, n17, V<2417>, n18, V<2418>, n19, V<2419>, n20, V<2420>, n21, V<2421>, n22, V<2422>, n23, V<2423>, n24, BCL_JOIN(std::pair<V<24>, V<24>>))
R24() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R24)
JSON_OBJECT_BEGIN(R25)
JSON_OBJECT_ROOT_PAIR_25(R25, n1, BCL_JOIN(std::pair<V<25>, V<1>>), n2, V<2502>, n3, V<2503>, n4, V<2504>, n5, V<2505>, n6, V<2506>, n7, V<2507>, n8, V<2508>, n9, V<2509>, n10, V<2510>, n11, V<2511>, n12, BCL_JOIN(std::pair<V<25>, V<12>>), n13, V<2513>, n14, V<2514>, n15, V<2515>, n16, V<2516>, n17, V<2517>, n18, V<2518>, n19, V<2519>, n20, V<2520>, n21, V<2521>, n22, V<2522>, n23, V<2523>, n24, V<2524>, n25, BCL_JOIN(std::pair<V<25>, V<25>>))
R25() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R25)
JSON_OBJECT_BEGIN(R26)
JSON_OBJECT_ROOT_PAIR_26(R26, n1, BCL_JOIN(std::pair<V<26>, V<1>>), n2, V<2602>, n3, V<2603>, n4, V<2604>, n5, V<2605>, n6, V<2606>, n7, V<2607>, n8, V<2608>, n9, V<2609>, n10, V<2610>, n11, V<2611>, n12, V<2612>, n13, BCL_JOIN(std::pair<V<26>, V<13>>), n14, V<2614>, n15, V<2615>, n16, V<2616>, n17, V<2617>, n18, V<2618>, n19, V<2619>, n20, V<2620>, n21, V<2621>, n22, V<2622>, n23, V<2623>, n24, V<2624>, n25, V<2625>, n26, BCL_JOIN(std::pair<V<26>, V<26>>))
R26() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R26)
JSON_OBJECT_BEGIN(R27)
JSON_OBJECT_ROOT_PAIR_27(R27, n1, BCL_JOIN(std::pair<V<27>, V<1>>), n2, V<2702>, n3, V<2703>, n4, V<2704>, n5, V<2705>, n6, V<2706>, n7, V<2707>, n8, V<2708>, n9, V<2709>, n10, V<2710>, n11, V<2711>, n12, V<2712>, n13, BCL_JOIN(std::pair<V<27>, V<13>>), n14, V<2714>, n15, V<2715>, n16, V<2716>, n17, V<2717>, n18, V<2718>, n19, V<2719>, n20, V<2720>, n21, V<2721>, n22, V<2722>, n23, V<2723>, n24, V<2724>, n25, V<2725>, n26, V<2726>, n27, BCL_JOIN(std::pair<V<27>, V<27>>))
R27() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R27)
JSON_OBJECT_BEGIN(R28)
JSON_OBJECT_ROOT_PAIR_28(R28, n1, BCL_JOIN(std::pair<V<28>, V<1>>), n2, V<2802>, n3, V<2803>, n4, V<2804>, n5, V<2805>, n6, V<2806>, n7, V<2807>, n8, V<2808>, n9, V<2809>, n10, V<2810>, n11, V<2811>, n12, V<2812>, n13, V<2813>, n14, BCL_JOIN(std::pair<V<28>, V<14>>), n15, V<2815>, n16, V<2816>, n17, V<2817>, n18, V<2818>, n19, V<2819>, n20, V<2820>, n21, V<2821>, n22, V<2822>, n23, V<2823>, n24, V<2824>, n25, V<2825>, n26, V<2826>, n27, V<2827>, n28, BCL_JOIN(std::pair<V<28>, V<28>>))
R28() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R28)
JSON_OBJECT_BEGIN(R29)
JSON_OBJECT_ROOT_PAIR_29(R29, n1, BCL_JOIN(std::pair<V<29>, V<1>>), n2, V<2902>, n3, V<2903>, n4, V<2904>, n5, V<2905>, n6, V<2906>, n7, V<2907>, n8, V<2908>, n9, V<2909>, n10, V<2910>, n11, V<2911>, n12, V<2912>, n13, V<2913>, n14, BCL_JOIN(std::pair<V<29>, V<14>>), n15, V<2915>, n16, V<2916>, n17, V<2917>, n18, V<2918>, n19, V<2919>, n20, V<2920>, n21, V<2921>, n22, V<2922>, n23, V<2923>, n24, V<2924>, n25, V<2925>, n26, V<2926>, n27, V<2927>, n28, V<2928>, n29, BCL_JOIN(std::pair<V<29>, V<29>>))
R29() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R29)
JSON_OBJECT_BEGIN(R30)
JSON_OBJECT_ROOT_PAIR_30(R30, n1, BCL_JOIN(std::pair<V<30>, V<1>>), n2, V<3002>, n3, V<3003>, n4, V<3004>, n5, V<3005>, n6, V<3006>, n7, V<3007>, n8, V<3008>, n9, V<3009>, n10, V<3010>, n11, V<3011>, n12, V<3012>, n13, V<3013>, n14, V<3014>, n15, BCL_JOIN(std::pair<V<30>, V<15>>), n16, V<3016>, n17, V<3017>, n18, V<3018>, n19, V<3019>, n20, V<3020>, n21, V<3021>, n22, V<3022>, n23, V<3023>, n24, V<3024>, n25, V<3025>, n26, V<3026>, n27, V<3027>, n28, V<3028>, n29, V<3029>, n30, BCL_JOIN(std::pair<V<30>, V<30>>))
R30() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R30)

// Objects described field by field.
namespace sub {
JSON_OBJECT_BEGIN(Free)
JSON_VALUE(left, V<1>)
JSON_VALUE(right, V<2>)
JSON_VALUE(more, V<3>)
JSON_OBJECT(Free, right, more, left)
JSON_ACCESS(Free, left)
JSON_ACCESS(Free, right)
JSON_ACCESS(Free, more)
Free(V<2> R, V<3> M, V<1> L) : JSON_INIT(Free, R, M, L) {}
JSON_OBJECT_END(Free)
JSON_OBJECT_BEGIN(FreeRoot)
JSON_VALUE(left, V<1>)
JSON_VALUE(right, V<2>)
JSON_OBJECT_ROOT(FreeRoot, left, right)
JSON_ACCESS(FreeRoot, left)
JSON_ACCESS(FreeRoot, right)
FreeRoot(V<1> L, V<2> R) : JSON_INIT_ROOT, JSON_INIT(FreeRoot, L, R) {}
JSON_OBJECT_END(FreeRoot)
}

JSON_DEFAULT_TRAITS(::, S1)
JSON_DEFAULT_TRAITS(::, S2)
JSON_DEFAULT_TRAITS(::, S3)
JSON_DEFAULT_TRAITS(::, S4)
JSON_DEFAULT_TRAITS(::, S5)
JSON_DEFAULT_TRAITS(::, S6)
JSON_DEFAULT_TRAITS(::, S7)
JSON_DEFAULT_TRAITS(::, S8)
JSON_DEFAULT_TRAITS(::, S9)
JSON_DEFAULT_TRAITS(::, S10)
JSON_DEFAULT_TRAITS(::, S11)
JSON_DEFAULT_TRAITS(::, S12)
JSON_DEFAULT_TRAITS(::, S13)
JSON_DEFAULT_TRAITS(::, S14)
JSON_DEFAULT_TRAITS(::, S15)
JSON_DEFAULT_TRAITS(::, S16)
JSON_DEFAULT_TRAITS(::, S17)
JSON_DEFAULT_TRAITS(::, S18)
JSON_DEFAULT_TRAITS(::, S19)
JSON_DEFAULT_TRAITS(::, S20)
JSON_DEFAULT_TRAITS(::, S21)
JSON_DEFAULT_TRAITS(::, S22)
JSON_DEFAULT_TRAITS(::, S23)
JSON_DEFAULT_TRAITS(::, S24)
JSON_DEFAULT_TRAITS(::, S25)
JSON_DEFAULT_TRAITS(::, S26)
JSON_DEFAULT_TRAITS(::, S27)
JSON_DEFAULT_TRAITS(::, S28)
JSON_DEFAULT_TRAITS(::, S29)
JSON_DEFAULT_TRAITS(::, S30)
JSON_DEFAULT_TRAITS(::, R1)
JSON_DEFAULT_TRAITS(::, R2)
JSON_DEFAULT_TRAITS(::, R3)
JSON_DEFAULT_TRAITS(::, R4)
JSON_DEFAULT_TRAITS(::, R5)
JSON_DEFAULT_TRAITS(::, R6)
JSON_DEFAULT_TRAITS(::, R7)
JSON_DEFAULT_TRAITS(::, R8)
JSON_DEFAULT_TRAITS(::, R9)
JSON_DEFAULT_TRAITS(::, R10)
JSON_DEFAULT_TRAITS(::, R11)
JSON_DEFAULT_TRAITS(::, R12)
JSON_DEFAULT_TRAITS(::, R13)
JSON_DEFAULT_TRAITS(::, R14)
JSON_DEFAULT_TRAITS(::, R15)
JSON_DEFAULT_TRAITS(::, R16)
JSON_DEFAULT_TRAITS(::, R17)
JSON_DEFAULT_TRAITS(::, R18)
JSON_DEFAULT_TRAITS(::, R19)
JSON_DEFAULT_TRAITS(::, R20)
JSON_DEFAULT_TRAITS(::, R21)
JSON_DEFAULT_TRAITS(::, R22)
JSON_DEFAULT_TRAITS(::, R23)
JSON_DEFAULT_TRAITS(::, R24)
JSON_DEFAULT_TRAITS(::, R25)
JSON_DEFAULT_TRAITS(::, R26)
JSON_DEFAULT_TRAITS(::, R27)
JSON_DEFAULT_TRAITS(::, R28)
JSON_DEFAULT_TRAITS(::, R29)
JSON_DEFAULT_TRAITS(::, R30)
JSON_DEFAULT_TRAITS(::sub::, Free)
JSON_DEFAULT_TRAITS(sub::, FreeRoot)

static_assert(Same<Cells<json_::S1Impl::Base>::Type, std::tuple<json_::S1Impl::n1>>, "the cells of an object are not its 1 pairs in order");
static_assert(Same<json_::S1Impl::n1::ValueType, std::pair<V<1>, V<1>>> && Same<JSON_VALUE_TYPE(S1, n1), std::pair<V<1>, V<1>>> && Same<Bare<decltype(S1::n1)>, json_::S1Impl::n1> && Same<Bare<decltype(std::declval<S1 &>()[S1::n1])>, std::pair<V<1>, V<1>>>, "pair 1 of 1 does not have its type");
static_assert(Is<S1, json_::S1Impl::Base> && Is<json::Traits<S1>, json::Traits<json_::S1Impl::Base>> && !Is<S1, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S2Impl::Base>::Type, std::tuple<json_::S2Impl::n1, json_::S2Impl::n2>>, "the cells of an object are not its 2 pairs in order");
static_assert(Same<json_::S2Impl::n1::ValueType, std::pair<V<2>, V<1>>> && Same<JSON_VALUE_TYPE(S2, n1), std::pair<V<2>, V<1>>> && Same<Bare<decltype(S2::n1)>, json_::S2Impl::n1> && Same<Bare<decltype(std::declval<S2 &>()[S2::n1])>, std::pair<V<2>, V<1>>>, "pair 1 of 2 does not have its type");
static_assert(Same<json_::S2Impl::n2::ValueType, std::pair<V<2>, V<2>>> && Same<JSON_VALUE_TYPE(S2, n2), std::pair<V<2>, V<2>>> && Same<Bare<decltype(S2::n2)>, json_::S2Impl::n2> && Same<Bare<decltype(std::declval<S2 &>()[S2::n2])>, std::pair<V<2>, V<2>>>, "pair 2 of 2 does not have its type");
static_assert(Is<S2, json_::S2Impl::Base> && Is<json::Traits<S2>, json::Traits<json_::S2Impl::Base>> && !Is<S2, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S3Impl::Base>::Type, std::tuple<json_::S3Impl::n1, json_::S3Impl::n2, json_::S3Impl::n3>>, "the cells of an object are not its 3 pairs in order");
static_assert(Same<json_::S3Impl::n1::ValueType, std::pair<V<3>, V<1>>> && Same<JSON_VALUE_TYPE(S3, n1), std::pair<V<3>, V<1>>> && Same<Bare<decltype(S3::n1)>, json_::S3Impl::n1> && Same<Bare<decltype(std::declval<S3 &>()[S3::n1])>, std::pair<V<3>, V<1>>>, "pair 1 of 3 does not have its type");
static_assert(Same<json_::S3Impl::n2::ValueType, V<302>> && Same<JSON_VALUE_TYPE(S3, n2), V<302>> && Same<Bare<decltype(S3::n2)>, json_::S3Impl::n2> && Same<Bare<decltype(std::declval<S3 &>()[S3::n2])>, V<302>>, "pair 2 of 3 does not have its type");
static_assert(Same<json_::S3Impl::n3::ValueType, std::pair<V<3>, V<3>>> && Same<JSON_VALUE_TYPE(S3, n3), std::pair<V<3>, V<3>>> && Same<Bare<decltype(S3::n3)>, json_::S3Impl::n3> && Same<Bare<decltype(std::declval<S3 &>()[S3::n3])>, std::pair<V<3>, V<3>>>, "pair 3 of 3 does not have its type");
static_assert(Is<S3, json_::S3Impl::Base> && Is<json::Traits<S3>, json::Traits<json_::S3Impl::Base>> && !Is<S3, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S4Impl::Base>::Type, std::tuple<json_::S4Impl::n1, json_::S4Impl::n2, json_::S4Impl::n3, json_::S4Impl::n4>>, "the cells of an object are not its 4 pairs in order");
static_assert(Same<json_::S4Impl::n1::ValueType, std::pair<V<4>, V<1>>> && Same<JSON_VALUE_TYPE(S4, n1), std::pair<V<4>, V<1>>> && Same<Bare<decltype(S4::n1)>, json_::S4Impl::n1> && Same<Bare<decltype(std::declval<S4 &>()[S4::n1])>, std::pair<V<4>, V<1>>>, "pair 1 of 4 does not have its type");
static_assert(Same<json_::S4Impl::n2::ValueType, std::pair<V<4>, V<2>>> && Same<JSON_VALUE_TYPE(S4, n2), std::pair<V<4>, V<2>>> && Same<Bare<decltype(S4::n2)>, json_::S4Impl::n2> && Same<Bare<decltype(std::declval<S4 &>()[S4::n2])>, std::pair<V<4>, V<2>>>, "pair 2 of 4 does not have its type");
static_assert(Same<json_::S4Impl::n3::ValueType, V<403>> && Same<JSON_VALUE_TYPE(S4, n3), V<403>> && Same<Bare<decltype(S4::n3)>, json_::S4Impl::n3> && Same<Bare<decltype(std::declval<S4 &>()[S4::n3])>, V<403>>, "pair 3 of 4 does not have its type");
static_assert(Same<json_::S4Impl::n4::ValueType, std::pair<V<4>, V<4>>> && Same<JSON_VALUE_TYPE(S4, n4), std::pair<V<4>, V<4>>> && Same<Bare<decltype(S4::n4)>, json_::S4Impl::n4> && Same<Bare<decltype(std::declval<S4 &>()[S4::n4])>, std::pair<V<4>, V<4>>>, "pair 4 of 4 does not have its type");
static_assert(Is<S4, json_::S4Impl::Base> && Is<json::Traits<S4>, json::Traits<json_::S4Impl::Base>> && !Is<S4, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S5Impl::Base>::Type, std::tuple<json_::S5Impl::n1, json_::S5Impl::n2, json_::S5Impl::n3, json_::S5Impl::n4, json_::S5Impl::n5>>, "the cells of an object are not its 5 pairs in order");
static_assert(Same<json_::S5Impl::n1::ValueType, std::pair<V<5>, V<1>>> && Same<JSON_VALUE_TYPE(S5, n1), std::pair<V<5>, V<1>>> && Same<Bare<decltype(S5::n1)>, json_::S5Impl::n1> && Same<Bare<decltype(std::declval<S5 &>()[S5::n1])>, std::pair<V<5>, V<1>>>, "pair 1 of 5 does not have its type");
static_assert(Same<json_::S5Impl::n2::ValueType, std::pair<V<5>, V<2>>> && Same<JSON_VALUE_TYPE(S5, n2), std::pair<V<5>, V<2>>> && Same<Bare<decltype(S5::n2)>, json_::S5Impl::n2> && Same<Bare<decltype(std::declval<S5 &>()[S5::n2])>, std::pair<V<5>, V<2>>>, "pair 2 of 5 does not have its type");
static_assert(Same<json_::S5Impl::n3::ValueType, V<503>> && Same<JSON_VALUE_TYPE(S5, n3), V<503>> && Same<Bare<decltype(S5::n3)>, json_::S5Impl::n3> && Same<Bare<decltype(std::declval<S5 &>()[S5::n3])>, V<503>>, "pair 3 of 5 does not have its type");
static_assert(Same<json_::S5Impl::n4::ValueType, V<504>> && Same<JSON_VALUE_TYPE(S5, n4), V<504>> && Same<Bare<decltype(S5::n4)>, json_::S5Impl::n4> && Same<Bare<decltype(std::declval<S5 &>()[S5::n4])>, V<504>>, "pair 4 of 5 does not have its type");
static_assert(Same<json_::S5Impl::n5::ValueType, std::pair<V<5>, V<5>>> && Same<JSON_VALUE_TYPE(S5, n5), std::pair<V<5>, V<5>>> && Same<Bare<decltype(S5::n5)>, json_::S5Impl::n5> && Same<Bare<decltype(std::declval<S5 &>()[S5::n5])>, std::pair<V<5>, V<5>>>, "pair 5 of 5 does not have its type");
static_assert(Is<S5, json_::S5Impl::Base> && Is<json::Traits<S5>, json::Traits<json_::S5Impl::Base>> && !Is<S5, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S6Impl::Base>::Type, std::tuple<json_::S6Impl::n1, json_::S6Impl::n2, json_::S6Impl::n3, json_::S6Impl::n4, json_::S6Impl::n5, json_::S6Impl::n6>>, "the cells of an object are not its 6 pairs in order");
static_assert(Same<json_::S6Impl::n1::ValueType, std::pair<V<6>, V<1>>> && Same<JSON_VALUE_TYPE(S6, n1), std::pair<V<6>, V<1>>> && Same<Bare<decltype(S6::n1)>, json_::S6Impl::n1> && Same<Bare<decltype(std::declval<S6 &>()[S6::n1])>, std::pair<V<6>, V<1>>>, "pair 1 of 6 does not have its type");
static_assert(Same<json_::S6Impl::n2::ValueType, V<602>> && Same<JSON_VALUE_TYPE(S6, n2), V<602>> && Same<Bare<decltype(S6::n2)>, json_::S6Impl::n2> && Same<Bare<decltype(std::declval<S6 &>()[S6::n2])>, V<602>>, "pair 2 of 6 does not have its type");
static_assert(Same<json_::S6Impl::n3::ValueType, std::pair<V<6>, V<3>>> && Same<JSON_VALUE_TYPE(S6, n3), std::pair<V<6>, V<3>>> && Same<Bare<decltype(S6::n3)>, json_::S6Impl::n3> && Same<Bare<decltype(std::declval<S6 &>()[S6::n3])>, std::pair<V<6>, V<3>>>, "pair 3 of 6 does not have its type");
static_assert(Same<json_::S6Impl::n4::ValueType, V<604>> && Same<JSON_VALUE_TYPE(S6, n4), V<604>> && Same<Bare<decltype(S6::n4)>, json_::S6Impl::n4> && Same<Bare<decltype(std::declval<S6 &>()[S6::n4])>, V<604>>, "pair 4 of 6 does not have its type");
static_assert(Same<json_::S6Impl::n5::ValueType, V<605>> && Same<JSON_VALUE_TYPE(S6, n5), V<605>> && Same<Bare<decltype(S6::n5)>, json_::S6Impl::n5> && Same<Bare<decltype(std::declval<S6 &>()[S6::n5])>, V<605>>, "pair 5 of 6 does not have its type");
static_assert(Same<json_::S6Impl::n6::ValueType, std::pair<V<6>, V<6>>> && Same<JSON_VALUE_TYPE(S6, n6), std::pair<V<6>, V<6>>> && Same<Bare<decltype(S6::n6)>, json_::S6Impl::n6> && Same<Bare<decltype(std::declval<S6 &>()[S6::n6])>, std::pair<V<6>, V<6>>>, "pair 6 of 6 does not have its type");
static_assert(Is<S6, json_::S6Impl::Base> && Is<json::Traits<S6>, json::Traits<json_::S6Impl::Base>> && !Is<S6, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S7Impl::Base>::Type, std::tuple<json_::S7Impl::n1, json_::S7Impl::n2, json_::S7Impl::n3, json_::S7Impl::n4, json_::S7Impl::n5, json_::S7Impl::n6, json_::S7Impl::n7>>, "the cells of an object are not its 7 pairs in order");
static_assert(Same<json_::S7Impl::n1::ValueType, std::pair<V<7>, V<1>>> && Same<JSON_VALUE_TYPE(S7, n1), std::pair<V<7>, V<1>>> && Same<Bare<decltype(S7::n1)>, json_::S7Impl::n1> && Same<Bare<decltype(std::declval<S7 &>()[S7::n1])>, std::pair<V<7>, V<1>>>, "pair 1 of 7 does not have its type");
static_assert(Same<json_::S7Impl::n2::ValueType, V<702>> && Same<JSON_VALUE_TYPE(S7, n2), V<702>> && Same<Bare<decltype(S7::n2)>, json_::S7Impl::n2> && Same<Bare<decltype(std::declval<S7 &>()[S7::n2])>, V<702>>, "pair 2 of 7 does not have its type");
static_assert(Same<json_::S7Impl::n3::ValueType, std::pair<V<7>, V<3>>> && Same<JSON_VALUE_TYPE(S7, n3), std::pair<V<7>, V<3>>> && Same<Bare<decltype(S7::n3)>, json_::S7Impl::n3> && Same<Bare<decltype(std::declval<S7 &>()[S7::n3])>, std::pair<V<7>, V<3>>>, "pair 3 of 7 does not have its type");
static_assert(Same<json_::S7Impl::n4::ValueType, V<704>> && Same<JSON_VALUE_TYPE(S7, n4), V<704>> && Same<Bare<decltype(S7::n4)>, json_::S7Impl::n4> && Same<Bare<decltype(std::declval<S7 &>()[S7::n4])>, V<704>>, "pair 4 of 7 does not have its type");
static_assert(Same<json_::S7Impl::n5::ValueType, V<705>> && Same<JSON_VALUE_TYPE(S7, n5), V<705>> && Same<Bare<decltype(S7::n5)>, json_::S7Impl::n5> && Same<Bare<decltype(std::declval<S7 &>()[S7::n5])>, V<705>>, "pair 5 of 7 does not have its type");
static_assert(Same<json_::S7Impl::n6::ValueType, V<706>> && Same<JSON_VALUE_TYPE(S7, n6), V<706>> && Same<Bare<decltype(S7::n6)>, json_::S7Impl::n6> && Same<Bare<decltype(std::declval<S7 &>()[S7::n6])>, V<706>>, "pair 6 of 7 does not have its type");
static_assert(Same<json_::S7Impl::n7::ValueType, std::pair<V<7>, V<7>>> && Same<JSON_VALUE_TYPE(S7, n7), std::pair<V<7>, V<7>>> && Same<Bare<decltype(S7::n7)>, json_::S7Impl::n7> && Same<Bare<decltype(std::declval<S7 &>()[S7::n7])>, std::pair<V<7>, V<7>>>, "pair 7 of 7 does not have its type");
static_assert(Is<S7, json_::S7Impl::Base> && Is<json::Traits<S7>, json::Traits<json_::S7Impl::Base>> && !Is<S7, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S8Impl::Base>::Type, std::tuple<json_::S8Impl::n1, json_::S8Impl::n2, json_::S8Impl::n3, json_::S8Impl::n4, json_::S8Impl::n5, json_::S8Impl::n6, json_::S8Impl::n7, json_::S8Impl::n8>>, "the cells of an object are not its 8 pairs in order");
static_assert(Same<json_::S8Impl::n1::ValueType, std::pair<V<8>, V<1>>> && Same<JSON_VALUE_TYPE(S8, n1), std::pair<V<8>, V<1>>> && Same<Bare<decltype(S8::n1)>, json_::S8Impl::n1> && Same<Bare<decltype(std::declval<S8 &>()[S8::n1])>, std::pair<V<8>, V<1>>>, "pair 1 of 8 does not have its type");
static_assert(Same<json_::S8Impl::n2::ValueType, V<802>> && Same<JSON_VALUE_TYPE(S8, n2), V<802>> && Same<Bare<decltype(S8::n2)>, json_::S8Impl::n2> && Same<Bare<decltype(std::declval<S8 &>()[S8::n2])>, V<802>>, "pair 2 of 8 does not have its type");
static_assert(Same<json_::S8Impl::n3::ValueType, V<803>> && Same<JSON_VALUE_TYPE(S8, n3), V<803>> && Same<Bare<decltype(S8::n3)>, json_::S8Impl::n3> && Same<Bare<decltype(std::declval<S8 &>()[S8::n3])>, V<803>>, "pair 3 of 8 does not have its type");
static_assert(Same<json_::S8Impl::n4::ValueType, std::pair<V<8>, V<4>>> && Same<JSON_VALUE_TYPE(S8, n4), std::pair<V<8>, V<4>>> && Same<Bare<decltype(S8::n4)>, json_::S8Impl::n4> && Same<Bare<decltype(std::declval<S8 &>()[S8::n4])>, std::pair<V<8>, V<4>>>, "pair 4 of 8 does not have its type");
static_assert(Same<json_::S8Impl::n5::ValueType, V<805>> && Same<JSON_VALUE_TYPE(S8, n5), V<805>> && Same<Bare<decltype(S8::n5)>, json_::S8Impl::n5> && Same<Bare<decltype(std::declval<S8 &>()[S8::n5])>, V<805>>, "pair 5 of 8 does not have its type");
static_assert(Same<json_::S8Impl::n6::ValueType, V<806>> && Same<JSON_VALUE_TYPE(S8, n6), V<806>> && Same<Bare<decltype(S8::n6)>, json_::S8Impl::n6> && Same<Bare<decltype(std::declval<S8 &>()[S8::n6])>, V<806>>, "pair 6 of 8 does not have its type");
static_assert(Same<json_::S8Impl::n7::ValueType, V<807>> && Same<JSON_VALUE_TYPE(S8, n7), V<807>> && Same<Bare<decltype(S8::n7)>, json_::S8Impl::n7> && Same<Bare<decltype(std::declval<S8 &>()[S8::n7])>, V<807>>, "pair 7 of 8 does not have its type");
static_assert(Same<json_::S8Impl::n8::ValueType, std::pair<V<8>, V<8>>> && Same<JSON_VALUE_TYPE(S8, n8), std::pair<V<8>, V<8>>> && Same<Bare<decltype(S8::n8)>, json_::S8Impl::n8> && Same<Bare<decltype(std::declval<S8 &>()[S8::n8])>, std::pair<V<8>, V<8>>>, "pair 8 of 8 does not have its type");
static_assert(Is<S8, json_::S8Impl::Base> && Is<json::Traits<S8>, json::Traits<json_::S8Impl::Base>> && !Is<S8, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S9Impl::Base>::Type, std::tuple<json_::S9Impl::n1, json_::S9Impl::n2, json_::S9Impl::n3, json_::S9Impl::n4, json_::S9Impl::n5, json_::S9Impl::n6, json_::S9Impl::n7, json_::S9Impl::n8, json_::S9Impl::n9>>, "the cells of an object are not its 9 pairs in order");
static_assert(Same<json_::S9Impl::n1::ValueType, std::pair<V<9>, V<1>>> && Same<JSON_VALUE_TYPE(S9, n1), std::pair<V<9>, V<1>>> && Same<Bare<decltype(S9::n1)>, json_::S9Impl::n1> && Same<Bare<decltype(std::declval<S9 &>()[S9::n1])>, std::pair<V<9>, V<1>>>, "pair 1 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n2::ValueType, V<902>> && Same<JSON_VALUE_TYPE(S9, n2), V<902>> && Same<Bare<decltype(S9::n2)>, json_::S9Impl::n2> && Same<Bare<decltype(std::declval<S9 &>()[S9::n2])>, V<902>>, "pair 2 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n3::ValueType, V<903>> && Same<JSON_VALUE_TYPE(S9, n3), V<903>> && Same<Bare<decltype(S9::n3)>, json_::S9Impl::n3> && Same<Bare<decltype(std::declval<S9 &>()[S9::n3])>, V<903>>, "pair 3 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n4::ValueType, std::pair<V<9>, V<4>>> && Same<JSON_VALUE_TYPE(S9, n4), std::pair<V<9>, V<4>>> && Same<Bare<decltype(S9::n4)>, json_::S9Impl::n4> && Same<Bare<decltype(std::declval<S9 &>()[S9::n4])>, std::pair<V<9>, V<4>>>, "pair 4 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n5::ValueType, V<905>> && Same<JSON_VALUE_TYPE(S9, n5), V<905>> && Same<Bare<decltype(S9::n5)>, json_::S9Impl::n5> && Same<Bare<decltype(std::declval<S9 &>()[S9::n5])>, V<905>>, "pair 5 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n6::ValueType, V<906>> && Same<JSON_VALUE_TYPE(S9, n6), V<906>> && Same<Bare<decltype(S9::n6)>, json_::S9Impl::n6> && Same<Bare<decltype(std::declval<S9 &>()[S9::n6])>, V<906>>, "pair 6 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n7::ValueType, V<907>> && Same<JSON_VALUE_TYPE(S9, n7), V<907>> && Same<Bare<decltype(S9::n7)>, json_::S9Impl::n7> && Same<Bare<decltype(std::declval<S9 &>()[S9::n7])>, V<907>>, "pair 7 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n8::ValueType, V<908>> && Same<JSON_VALUE_TYPE(S9, n8), V<908>> && Same<Bare<decltype(S9::n8)>, json_::S9Impl::n8> && Same<Bare<decltype(std::declval<S9 &>()[S9::n8])>, V<908>>, "pair 8 of 9 does not have its type");
static_assert(Same<json_::S9Impl::n9::ValueType, std::pair<V<9>, V<9>>> && Same<JSON_VALUE_TYPE(S9, n9), std::pair<V<9>, V<9>>> && Same<Bare<decltype(S9::n9)>, json_::S9Impl::n9> && Same<Bare<decltype(std::declval<S9 &>()[S9::n9])>, std::pair<V<9>, V<9>>>, "pair 9 of 9 does not have its type");
static_assert(Is<S9, json_::S9Impl::Base> && Is<json::Traits<S9>, json::Traits<json_::S9Impl::Base>> && !Is<S9, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S10Impl::Base>::Type, std::tuple<json_::S10Impl::n1, json_::S10Impl::n2, json_::S10Impl::n3, json_::S10Impl::n4, json_::S10Impl::n5, json_::S10Impl::n6, json_::S10Impl::n7, json_::S10Impl::n8, json_::S10Impl::n9, json_::S10Impl::n10>>, "the cells of an object are not its 10 pairs in order");
static_assert(Same<json_::S10Impl::n1::ValueType, std::pair<V<10>, V<1>>> && Same<JSON_VALUE_TYPE(S10, n1), std::pair<V<10>, V<1>>> && Same<Bare<decltype(S10::n1)>, json_::S10Impl::n1> && Same<Bare<decltype(std::declval<S10 &>()[S10::n1])>, std::pair<V<10>, V<1>>>, "pair 1 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n2::ValueType, V<1002>> && Same<JSON_VALUE_TYPE(S10, n2), V<1002>> && Same<Bare<decltype(S10::n2)>, json_::S10Impl::n2> && Same<Bare<decltype(std::declval<S10 &>()[S10::n2])>, V<1002>>, "pair 2 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n3::ValueType, V<1003>> && Same<JSON_VALUE_TYPE(S10, n3), V<1003>> && Same<Bare<decltype(S10::n3)>, json_::S10Impl::n3> && Same<Bare<decltype(std::declval<S10 &>()[S10::n3])>, V<1003>>, "pair 3 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n4::ValueType, V<1004>> && Same<JSON_VALUE_TYPE(S10, n4), V<1004>> && Same<Bare<decltype(S10::n4)>, json_::S10Impl::n4> && Same<Bare<decltype(std::declval<S10 &>()[S10::n4])>, V<1004>>, "pair 4 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n5::ValueType, std::pair<V<10>, V<5>>> && Same<JSON_VALUE_TYPE(S10, n5), std::pair<V<10>, V<5>>> && Same<Bare<decltype(S10::n5)>, json_::S10Impl::n5> && Same<Bare<decltype(std::declval<S10 &>()[S10::n5])>, std::pair<V<10>, V<5>>>, "pair 5 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n6::ValueType, V<1006>> && Same<JSON_VALUE_TYPE(S10, n6), V<1006>> && Same<Bare<decltype(S10::n6)>, json_::S10Impl::n6> && Same<Bare<decltype(std::declval<S10 &>()[S10::n6])>, V<1006>>, "pair 6 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n7::ValueType, V<1007>> && Same<JSON_VALUE_TYPE(S10, n7), V<1007>> && Same<Bare<decltype(S10::n7)>, json_::S10Impl::n7> && Same<Bare<decltype(std::declval<S10 &>()[S10::n7])>, V<1007>>, "pair 7 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n8::ValueType, V<1008>> && Same<JSON_VALUE_TYPE(S10, n8), V<1008>> && Same<Bare<decltype(S10::n8)>, json_::S10Impl::n8> && Same<Bare<decltype(std::declval<S10 &>()[S10::n8])>, V<1008>>, "pair 8 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n9::ValueType, V<1009>> && Same<JSON_VALUE_TYPE(S10, n9), V<1009>> && Same<Bare<decltype(S10::n9)>, json_::S10Impl::n9> && Same<Bare<decltype(std::declval<S10 &>()[S10::n9])>, V<1009>>, "pair 9 of 10 does not have its type");
static_assert(Same<json_::S10Impl::n10::ValueType, std::pair<V<10>, V<10>>> && Same<JSON_VALUE_TYPE(S10, n10), std::pair<V<10>, V<10>>> && Same<Bare<decltype(S10::n10)>, json_::S10Impl::n10> && Same<Bare<decltype(std::declval<S10 &>()[S10::n10])>, std::pair<V<10>, V<10>>>, "pair 10 of 10 does not have its type");
static_assert(Is<S10, json_::S10Impl::Base> && Is<json::Traits<S10>, json::Traits<json_::S10Impl::Base>> && !Is<S10, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S11Impl::Base>::Type, std::tuple<json_::S11Impl::n1, json_::S11Impl::n2, json_::S11Impl::n3, json_::S11Impl::n4, json_::S11Impl::n5, json_::S11Impl::n6, json_::S11Impl::n7, json_::S11Impl::n8, json_::S11Impl::n9, json_::S11Impl::n10, json_::S11Impl::n11>>, "the cells of an object are not its 11 pairs in order");
static_assert(Same<json_::S11Impl::n1::ValueType, std::pair<V<11>, V<1>>> && Same<JSON_VALUE_TYPE(S11, n1), std::pair<V<11>, V<1>>> && Same<Bare<decltype(S11::n1)>, json_::S11Impl::n1> && Same<Bare<decltype(std::declval<S11 &>()[S11::n1])>, std::pair<V<11>, V<1>>>, "pair 1 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n2::ValueType, V<1102>> && Same<JSON_VALUE_TYPE(S11, n2), V<1102>> && Same<Bare<decltype(S11::n2)>, json_::S11Impl::n2> && Same<Bare<decltype(std::declval<S11 &>()[S11::n2])>, V<1102>>, "pair 2 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n3::ValueType, V<1103>> && Same<JSON_VALUE_TYPE(S11, n3), V<1103>> && Same<Bare<decltype(S11::n3)>, json_::S11Impl::n3> && Same<Bare<decltype(std::declval<S11 &>()[S11::n3])>, V<1103>>, "pair 3 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n4::ValueType, V<1104>> && Same<JSON_VALUE_TYPE(S11, n4), V<1104>> && Same<Bare<decltype(S11::n4)>, json_::S11Impl::n4> && Same<Bare<decltype(std::declval<S11 &>()[S11::n4])>, V<1104>>, "pair 4 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n5::ValueType, std::pair<V<11>, V<5>>> && Same<JSON_VALUE_TYPE(S11, n5), std::pair<V<11>, V<5>>> && Same<Bare<decltype(S11::n5)>, json_::S11Impl::n5> && Same<Bare<decltype(std::declval<S11 &>()[S11::n5])>, std::pair<V<11>, V<5>>>, "pair 5 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n6::ValueType, V<1106>> && Same<JSON_VALUE_TYPE(S11, n6), V<1106>> && Same<Bare<decltype(S11::n6)>, json_::S11Impl::n6> && Same<Bare<decltype(std::declval<S11 &>()[S11::n6])>, V<1106>>, "pair 6 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n7::ValueType, V<1107>> && Same<JSON_VALUE_TYPE(S11, n7), V<1107>> && Same<Bare<decltype(S11::n7)>, json_::S11Impl::n7> && Same<Bare<decltype(std::declval<S11 &>()[S11::n7])>, V<1107>>, "pair 7 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n8::ValueType, V<1108>> && Same<JSON_VALUE_TYPE(S11, n8), V<1108>> && Same<Bare<decltype(S11::n8)>, json_::S11Impl::n8> && Same<Bare<decltype(std::declval<S11 &>()[S11::n8])>, V<1108>>, "pair 8 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n9::ValueType, V<1109>> && Same<JSON_VALUE_TYPE(S11, n9), V<1109>> && Same<Bare<decltype(S11::n9)>, json_::S11Impl::n9> && Same<Bare<decltype(std::declval<S11 &>()[S11::n9])>, V<1109>>, "pair 9 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n10::ValueType, V<1110>> && Same<JSON_VALUE_TYPE(S11, n10), V<1110>> && Same<Bare<decltype(S11::n10)>, json_::S11Impl::n10> && Same<Bare<decltype(std::declval<S11 &>()[S11::n10])>, V<1110>>, "pair 10 of 11 does not have its type");
static_assert(Same<json_::S11Impl::n11::ValueType, std::pair<V<11>, V<11>>> && Same<JSON_VALUE_TYPE(S11, n11), std::pair<V<11>, V<11>>> && Same<Bare<decltype(S11::n11)>, json_::S11Impl::n11> && Same<Bare<decltype(std::declval<S11 &>()[S11::n11])>, std::pair<V<11>, V<11>>>, "pair 11 of 11 does not have its type");
static_assert(Is<S11, json_::S11Impl::Base> && Is<json::Traits<S11>, json::Traits<json_::S11Impl::Base>> && !Is<S11, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S12Impl::Base>::Type, std::tuple<json_::S12Impl::n1, json_::S12Impl::n2, json_::S12Impl::n3, json_::S12Impl::n4, json_::S12Impl::n5, json_::S12Impl::n6, json_::S12Impl::n7, json_::S12Impl::n8, json_::S12Impl::n9, json_::S12Impl::n10, json_::S12Impl::n11, json_::S12Impl::n12>>, "the cells of an object are not its 12 pairs in order");
static_assert(Same<json_::S12Impl::n1::ValueType, std::pair<V<12>, V<1>>> && Same<JSON_VALUE_TYPE(S12, n1), std::pair<V<12>, V<1>>> && Same<Bare<decltype(S12::n1)>, json_::S12Impl::n1> && Same<Bare<decltype(std::declval<S12 &>()[S12::n1])>, std::pair<V<12>, V<1>>>, "pair 1 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n2::ValueType, V<1202>> && Same<JSON_VALUE_TYPE(S12, n2), V<1202>> && Same<Bare<decltype(S12::n2)>, json_::S12Impl::n2> && Same<Bare<decltype(std::declval<S12 &>()[S12::n2])>, V<1202>>, "pair 2 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n3::ValueType, V<1203>> && Same<JSON_VALUE_TYPE(S12, n3), V<1203>> && Same<Bare<decltype(S12::n3)>, json_::S12Impl::n3> && Same<Bare<decltype(std::declval<S12 &>()[S12::n3])>, V<1203>>, "pair 3 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n4::ValueType, V<1204>> && Same<JSON_VALUE_TYPE(S12, n4), V<1204>> && Same<Bare<decltype(S12::n4)>, json_::S12Impl::n4> && Same<Bare<decltype(std::declval<S12 &>()[S12::n4])>, V<1204>>, "pair 4 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n5::ValueType, V<1205>> && Same<JSON_VALUE_TYPE(S12, n5), V<1205>> && Same<Bare<decltype(S12::n5)>, json_::S12Impl::n5> && Same<Bare<decltype(std::declval<S12 &>()[S12::n5])>, V<1205>>, "pair 5 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n6::ValueType, std::pair<V<12>, V<6>>> && Same<JSON_VALUE_TYPE(S12, n6), std::pair<V<12>, V<6>>> && Same<Bare<decltype(S12::n6)>, json_::S12Impl::n6> && Same<Bare<decltype(std::declval<S12 &>()[S12::n6])>, std::pair<V<12>, V<6>>>, "pair 6 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n7::ValueType, V<1207>> && Same<JSON_VALUE_TYPE(S12, n7), V<1207>> && Same<Bare<decltype(S12::n7)>, json_::S12Impl::n7> && Same<Bare<decltype(std::declval<S12 &>()[S12::n7])>, V<1207>>, "pair 7 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n8::ValueType, V<1208>> && Same<JSON_VALUE_TYPE(S12, n8), V<1208>> && Same<Bare<decltype(S12::n8)>, json_::S12Impl::n8> && Same<Bare<decltype(std::declval<S12 &>()[S12::n8])>, V<1208>>, "pair 8 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n9::ValueType, V<1209>> && Same<JSON_VALUE_TYPE(S12, n9), V<1209>> && Same<Bare<decltype(S12::n9)>, json_::S12Impl::n9> && Same<Bare<decltype(std::declval<S12 &>()[S12::n9])>, V<1209>>, "pair 9 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n10::ValueType, V<1210>> && Same<JSON_VALUE_TYPE(S12, n10), V<1210>> && Same<Bare<decltype(S12::n10)>, json_::S12Impl::n10> && Same<Bare<decltype(std::declval<S12 &>()[S12::n10])>, V<1210>>, "pair 10 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n11::ValueType, V<1211>> && Same<JSON_VALUE_TYPE(S12, n11), V<1211>> && Same<Bare<decltype(S12::n11)>, json_::S12Impl::n11> && Same<Bare<decltype(std::declval<S12 &>()[S12::n11])>, V<1211>>, "pair 11 of 12 does not have its type");
static_assert(Same<json_::S12Impl::n12::ValueType, std::pair<V<12>, V<12>>> && Same<JSON_VALUE_TYPE(S12, n12), std::pair<V<12>, V<12>>> && Same<Bare<decltype(S12::n12)>, json_::S12Impl::n12> && Same<Bare<decltype(std::declval<S12 &>()[S12::n12])>, std::pair<V<12>, V<12>>>, "pair 12 of 12 does not have its type");
static_assert(Is<S12, json_::S12Impl::Base> && Is<json::Traits<S12>, json::Traits<json_::S12Impl::Base>> && !Is<S12, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S13Impl::Base>::Type, std::tuple<json_::S13Impl::n1, json_::S13Impl::n2, json_::S13Impl::n3, json_::S13Impl::n4, json_::S13Impl::n5, json_::S13Impl::n6, json_::S13Impl::n7, json_::S13Impl::n8, json_::S13Impl::n9, json_::S13Impl::n10, json_::S13Impl::n11, json_::S13Impl::n12, json_::S13Impl::n13>>, "the cells of an object are not its 13 pairs in order");
static_assert(Same<json_::S13Impl::n1::ValueType, std::pair<V<13>, V<1>>> && Same<JSON_VALUE_TYPE(S13, n1), std::pair<V<13>, V<1>>> && Same<Bare<decltype(S13::n1)>, json_::S13Impl::n1> && Same<Bare<decltype(std::declval<S13 &>()[S13::n1])>, std::pair<V<13>, V<1>>>, "pair 1 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n2::ValueType, V<1302>> && Same<JSON_VALUE_TYPE(S13, n2), V<1302>> && Same<Bare<decltype(S13::n2)>, json_::S13Impl::n2> && Same<Bare<decltype(std::declval<S13 &>()[S13::n2])>, V<1302>>, "pair 2 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n3::ValueType, V<1303>> && Same<JSON_VALUE_TYPE(S13, n3), V<1303>> && Same<Bare<decltype(S13::n3)>, json_::S13Impl::n3> && Same<Bare<decltype(std::declval<S13 &>()[S13::n3])>, V<1303>>, "pair 3 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n4::ValueType, V<1304>> && Same<JSON_VALUE_TYPE(S13, n4), V<1304>> && Same<Bare<decltype(S13::n4)>, json_::S13Impl::n4> && Same<Bare<decltype(std::declval<S13 &>()[S13::n4])>, V<1304>>, "pair 4 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n5::ValueType, V<1305>> && Same<JSON_VALUE_TYPE(S13, n5), V<1305>> && Same<Bare<decltype(S13::n5)>, json_::S13Impl::n5> && Same<Bare<decltype(std::declval<S13 &>()[S13::n5])>, V<1305>>, "pair 5 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n6::ValueType, std::pair<V<13>, V<6>>> && Same<JSON_VALUE_TYPE(S13, n6), std::pair<V<13>, V<6>>> && Same<Bare<decltype(S13::n6)>, json_::S13Impl::n6> && Same<Bare<decltype(std::declval<S13 &>()[S13::n6])>, std::pair<V<13>, V<6>>>, "pair 6 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n7::ValueType, V<1307>> && Same<JSON_VALUE_TYPE(S13, n7), V<1307>> && Same<Bare<decltype(S13::n7)>, json_::S13Impl::n7> && Same<Bare<decltype(std::declval<S13 &>()[S13::n7])>, V<1307>>, "pair 7 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n8::ValueType, V<1308>> && Same<JSON_VALUE_TYPE(S13, n8), V<1308>> && Same<Bare<decltype(S13::n8)>, json_::S13Impl::n8> && Same<Bare<decltype(std::declval<S13 &>()[S13::n8])>, V<1308>>, "pair 8 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n9::ValueType, V<1309>> && Same<JSON_VALUE_TYPE(S13, n9), V<1309>> && Same<Bare<decltype(S13::n9)>, json_::S13Impl::n9> && Same<Bare<decltype(std::declval<S13 &>()[S13::n9])>, V<1309>>, "pair 9 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n10::ValueType, V<1310>> && Same<JSON_VALUE_TYPE(S13, n10), V<1310>> && Same<Bare<decltype(S13::n10)>, json_::S13Impl::n10> && Same<Bare<decltype(std::declval<S13 &>()[S13::n10])>, V<1310>>, "pair 10 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n11::ValueType, V<1311>> && Same<JSON_VALUE_TYPE(S13, n11), V<1311>> && Same<Bare<decltype(S13::n11)>, json_::S13Impl::n11> && Same<Bare<decltype(std::declval<S13 &>()[S13::n11])>, V<1311>>, "pair 11 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n12::ValueType, V<1312>> && Same<JSON_VALUE_TYPE(S13, n12), V<1312>> && Same<Bare<decltype(S13::n12)>, json_::S13Impl::n12> && Same<Bare<decltype(std::declval<S13 &>()[S13::n12])>, V<1312>>, "pair 12 of 13 does not have its type");
static_assert(Same<json_::S13Impl::n13::ValueType, std::pair<V<13>, V<13>>> && Same<JSON_VALUE_TYPE(S13, n13), std::pair<V<13>, V<13>>> && Same<Bare<decltype(S13::n13)>, json_::S13Impl::n13> && Same<Bare<decltype(std::declval<S13 &>()[S13::n13])>, std::pair<V<13>, V<13>>>, "pair 13 of 13 does not have its type");
static_assert(Is<S13, json_::S13Impl::Base> && Is<json::Traits<S13>, json::Traits<json_::S13Impl::Base>> && !Is<S13, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S14Impl::Base>::Type, std::tuple<json_::S14Impl::n1, json_::S14Impl::n2, json_::S14Impl::n3, json_::S14Impl::n4, json_::S14Impl::n5, json_::S14Impl::n6, json_::S14Impl::n7, json_::S14Impl::n8, json_::S14Impl::n9, json_::S14Impl::n10, json_::S14Impl::n11, json_::S14Impl::n12, json_::S14Impl::n13, json_::S14Impl::n14>>, "the cells of an object are not its 14 pairs in order");
static_assert(Same<json_::S14Impl::n1::ValueType, std::pair<V<14>, V<1>>> && Same<JSON_VALUE_TYPE(S14, n1), std::pair<V<14>, V<1>>> && Same<Bare<decltype(S14::n1)>, json_::S14Impl::n1> && Same<Bare<decltype(std::declval<S14 &>()[S14::n1])>, std::pair<V<14>, V<1>>>, "pair 1 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n2::ValueType, V<1402>> && Same<JSON_VALUE_TYPE(S14, n2), V<1402>> && Same<Bare<decltype(S14::n2)>, json_::S14Impl::n2> && Same<Bare<decltype(std::declval<S14 &>()[S14::n2])>, V<1402>>, "pair 2 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n3::ValueType, V<1403>> && Same<JSON_VALUE_TYPE(S14, n3), V<1403>> && Same<Bare<decltype(S14::n3)>, json_::S14Impl::n3> && Same<Bare<decltype(std::declval<S14 &>()[S14::n3])>, V<1403>>, "pair 3 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n4::ValueType, V<1404>> && Same<JSON_VALUE_TYPE(S14, n4), V<1404>> && Same<Bare<decltype(S14::n4)>, json_::S14Impl::n4> && Same<Bare<decltype(std::declval<S14 &>()[S14::n4])>, V<1404>>, "pair 4 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n5::ValueType, V<1405>> && Same<JSON_VALUE_TYPE(S14, n5), V<1405>> && Same<Bare<decltype(S14::n5)>, json_::S14Impl::n5> && Same<Bare<decltype(std::declval<S14 &>()[S14::n5])>, V<1405>>, "pair 5 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n6::ValueType, V<1406>> && Same<JSON_VALUE_TYPE(S14, n6), V<1406>> && Same<Bare<decltype(S14::n6)>, json_::S14Impl::n6> && Same<Bare<decltype(std::declval<S14 &>()[S14::n6])>, V<1406>>, "pair 6 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n7::ValueType, std::pair<V<14>, V<7>>> && Same<JSON_VALUE_TYPE(S14, n7), std::pair<V<14>, V<7>>> && Same<Bare<decltype(S14::n7)>, json_::S14Impl::n7> && Same<Bare<decltype(std::declval<S14 &>()[S14::n7])>, std::pair<V<14>, V<7>>>, "pair 7 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n8::ValueType, V<1408>> && Same<JSON_VALUE_TYPE(S14, n8), V<1408>> && Same<Bare<decltype(S14::n8)>, json_::S14Impl::n8> && Same<Bare<decltype(std::declval<S14 &>()[S14::n8])>, V<1408>>, "pair 8 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n9::ValueType, V<1409>> && Same<JSON_VALUE_TYPE(S14, n9), V<1409>> && Same<Bare<decltype(S14::n9)>, json_::S14Impl::n9> && Same<Bare<decltype(std::declval<S14 &>()[S14::n9])>, V<1409>>, "pair 9 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n10::ValueType, V<1410>> && Same<JSON_VALUE_TYPE(S14, n10), V<1410>> && Same<Bare<decltype(S14::n10)>, json_::S14Impl::n10> && Same<Bare<decltype(std::declval<S14 &>()[S14::n10])>, V<1410>>, "pair 10 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n11::ValueType, V<1411>> && Same<JSON_VALUE_TYPE(S14, n11), V<1411>> && Same<Bare<decltype(S14::n11)>, json_::S14Impl::n11> && Same<Bare<decltype(std::declval<S14 &>()[S14::n11])>, V<1411>>, "pair 11 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n12::ValueType, V<1412>> && Same<JSON_VALUE_TYPE(S14, n12), V<1412>> && Same<Bare<decltype(S14::n12)>, json_::S14Impl::n12> && Same<Bare<decltype(std::declval<S14 &>()[S14::n12])>, V<1412>>, "pair 12 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n13::ValueType, V<1413>> && Same<JSON_VALUE_TYPE(S14, n13), V<1413>> && Same<Bare<decltype(S14::n13)>, json_::S14Impl::n13> && Same<Bare<decltype(std::declval<S14 &>()[S14::n13])>, V<1413>>, "pair 13 of 14 does not have its type");
static_assert(Same<json_::S14Impl::n14::ValueType, std::pair<V<14>, V<14>>> && Same<JSON_VALUE_TYPE(S14, n14), std::pair<V<14>, V<14>>> && Same<Bare<decltype(S14::n14)>, json_::S14Impl::n14> && Same<Bare<decltype(std::declval<S14 &>()[S14::n14])>, std::pair<V<14>, V<14>>>, "pair 14 of 14 does not have its type");
static_assert(Is<S14, json_::S14Impl::Base> && Is<json::Traits<S14>, json::Traits<json_::S14Impl::Base>> && !Is<S14, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S15Impl::Base>::Type, std::tuple<json_::S15Impl::n1, json_::S15Impl::n2, json_::S15Impl::n3, json_::S15Impl::n4, json_::S15Impl::n5, json_::S15Impl::n6, json_::S15Impl::n7, json_::S15Impl::n8, json_::S15Impl::n9, json_::S15Impl::n10, json_::S15Impl::n11, json_::S15Impl::n12, json_::S15Impl::n13, json_::S15Impl::n14, json_::S15Impl::n15>>, "the cells of an object are not its 15 pairs in order");
static_assert(Same<json_::S15Impl::n1::ValueType, std::pair<V<15>, V<1>>> && Same<JSON_VALUE_TYPE(S15, n1), std::pair<V<15>, V<1>>> && Same<Bare<decltype(S15::n1)>, json_::S15Impl::n1> && Same<Bare<decltype(std::declval<S15 &>()[S15::n1])>, std::pair<V<15>, V<1>>>, "pair 1 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n2::ValueType, V<1502>> && Same<JSON_VALUE_TYPE(S15, n2), V<1502>> && Same<Bare<decltype(S15::n2)>, json_::S15Impl::n2> && Same<Bare<decltype(std::declval<S15 &>()[S15::n2])>, V<1502>>, "pair 2 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n3::ValueType, V<1503>> && Same<JSON_VALUE_TYPE(S15, n3), V<1503>> && Same<Bare<decltype(S15::n3)>, json_::S15Impl::n3> && Same<Bare<decltype(std::declval<S15 &>()[S15::n3])>, V<1503>>, "pair 3 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n4::ValueType, V<1504>> && Same<JSON_VALUE_TYPE(S15, n4), V<1504>> && Same<Bare<decltype(S15::n4)>, json_::S15Impl::n4> && Same<Bare<decltype(std::declval<S15 &>()[S15::n4])>, V<1504>>, "pair 4 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n5::ValueType, V<1505>> && Same<JSON_VALUE_TYPE(S15, n5), V<1505>> && Same<Bare<decltype(S15::n5)>, json_::S15Impl::n5> && Same<Bare<decltype(std::declval<S15 &>()[S15::n5])>, V<1505>>, "pair 5 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n6::ValueType, V<1506>> && Same<JSON_VALUE_TYPE(S15, n6), V<1506>> && Same<Bare<decltype(S15::n6)>, json_::S15Impl::n6> && Same<Bare<decltype(std::declval<S15 &>()[S15::n6])>, V<1506>>, "pair 6 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n7::ValueType, std::pair<V<15>, V<7>>> && Same<JSON_VALUE_TYPE(S15, n7), std::pair<V<15>, V<7>>> && Same<Bare<decltype(S15::n7)>, json_::S15Impl::n7> && Same<Bare<decltype(std::declval<S15 &>()[S15::n7])>, std::pair<V<15>, V<7>>>, "pair 7 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n8::ValueType, V<1508>> && Same<JSON_VALUE_TYPE(S15, n8), V<1508>> && Same<Bare<decltype(S15::n8)>, json_::S15Impl::n8> && Same<Bare<decltype(std::declval<S15 &>()[S15::n8])>, V<1508>>, "pair 8 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n9::ValueType, V<1509>> && Same<JSON_VALUE_TYPE(S15, n9), V<1509>> && Same<Bare<decltype(S15::n9)>, json_::S15Impl::n9> && Same<Bare<decltype(std::declval<S15 &>()[S15::n9])>, V<1509>>, "pair 9 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n10::ValueType, V<1510>> && Same<JSON_VALUE_TYPE(S15, n10), V<1510>> && Same<Bare<decltype(S15::n10)>, json_::S15Impl::n10> && Same<Bare<decltype(std::declval<S15 &>()[S15::n10])>, V<1510>>, "pair 10 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n11::ValueType, V<1511>> && Same<JSON_VALUE_TYPE(S15, n11), V<1511>> && Same<Bare<decltype(S15::n11)>, json_::S15Impl::n11> && Same<Bare<decltype(std::declval<S15 &>()[S15::n11])>, V<1511>>, "pair 11 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n12::ValueType, V<1512>> && Same<JSON_VALUE_TYPE(S15, n12), V<1512>> && Same<Bare<decltype(S15::n12)>, json_::S15Impl::n12> && Same<Bare<decltype(std::declval<S15 &>()[S15::n12])>, V<1512>>, "pair 12 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n13::ValueType, V<1513>> && Same<JSON_VALUE_TYPE(S15, n13), V<1513>> && Same<Bare<decltype(S15::n13)>, json_::S15Impl::n13> && Same<Bare<decltype(std::declval<S15 &>()[S15::n13])>, V<1513>>, "pair 13 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n14::ValueType, V<1514>> && Same<JSON_VALUE_TYPE(S15, n14), V<1514>> && Same<Bare<decltype(S15::n14)>, json_::S15Impl::n14> && Same<Bare<decltype(std::declval<S15 &>()[S15::n14])>, V<1514>>, "pair 14 of 15 does not have its type");
static_assert(Same<json_::S15Impl::n15::ValueType, std::pair<V<15>, V<15>>> && Same<JSON_VALUE_TYPE(S15, n15), std::pair<V<15>, V<15>>> && Same<Bare<decltype(S15::n15)>, json_::S15Impl::n15> && Same<Bare<decltype(std::declval<S15 &>()[S15::n15])>, std::pair<V<15>, V<15>>>, "pair 15 of 15 does not have its type");
static_assert(Is<S15, json_::S15Impl::Base> && Is<json::Traits<S15>, json::Traits<json_::S15Impl::Base>> && !Is<S15, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S16Impl::Base>::Type, std::tuple<json_::S16Impl::n1, json_::S16Impl::n2, json_::S16Impl::n3, json_::S16Impl::n4, json_::S16Impl::n5, json_::S16Impl::n6, json_::S16Impl::n7, json_::S16Impl::n8, json_::S16Impl::n9, json_::S16Impl::n10, json_::S16Impl::n11, json_::S16Impl::n12, json_::S16Impl::n13, json_::S16Impl::n14, json_::S16Impl::n15, json_::S16Impl::n16>>, "the cells of an object are not its 16 pairs in order");
static_assert(Same<json_::S16Impl::n1::ValueType, std::pair<V<16>, V<1>>> && Same<JSON_VALUE_TYPE(S16, n1), std::pair<V<16>, V<1>>> && Same<Bare<decltype(S16::n1)>, json_::S16Impl::n1> && Same<Bare<decltype(std::declval<S16 &>()[S16::n1])>, std::pair<V<16>, V<1>>>, "pair 1 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n2::ValueType, V<1602>> && Same<JSON_VALUE_TYPE(S16, n2), V<1602>> && Same<Bare<decltype(S16::n2)>, json_::S16Impl::n2> && Same<Bare<decltype(std::declval<S16 &>()[S16::n2])>, V<1602>>, "pair 2 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n3::ValueType, V<1603>> && Same<JSON_VALUE_TYPE(S16, n3), V<1603>> && Same<Bare<decltype(S16::n3)>, json_::S16Impl::n3> && Same<Bare<decltype(std::declval<S16 &>()[S16::n3])>, V<1603>>, "pair 3 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n4::ValueType, V<1604>> && Same<JSON_VALUE_TYPE(S16, n4), V<1604>> && Same<Bare<decltype(S16::n4)>, json_::S16Impl::n4> && Same<Bare<decltype(std::declval<S16 &>()[S16::n4])>, V<1604>>, "pair 4 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n5::ValueType, V<1605>> && Same<JSON_VALUE_TYPE(S16, n5), V<1605>> && Same<Bare<decltype(S16::n5)>, json_::S16Impl::n5> && Same<Bare<decltype(std::declval<S16 &>()[S16::n5])>, V<1605>>, "pair 5 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n6::ValueType, V<1606>> && Same<JSON_VALUE_TYPE(S16, n6), V<1606>> && Same<Bare<decltype(S16::n6)>, json_::S16Impl::n6> && Same<Bare<decltype(std::declval<S16 &>()[S16::n6])>, V<1606>>, "pair 6 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n7::ValueType, V<1607>> && Same<JSON_VALUE_TYPE(S16, n7), V<1607>> && Same<Bare<decltype(S16::n7)>, json_::S16Impl::n7> && Same<Bare<decltype(std::declval<S16 &>()[S16::n7])>, V<1607>>, "pair 7 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n8::ValueType, std::pair<V<16>, V<8>>> && Same<JSON_VALUE_TYPE(S16, n8), std::pair<V<16>, V<8>>> && Same<Bare<decltype(S16::n8)>, json_::S16Impl::n8> && Same<Bare<decltype(std::declval<S16 &>()[S16::n8])>, std::pair<V<16>, V<8>>>, "pair 8 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n9::ValueType, V<1609>> && Same<JSON_VALUE_TYPE(S16, n9), V<1609>> && Same<Bare<decltype(S16::n9)>, json_::S16Impl::n9> && Same<Bare<decltype(std::declval<S16 &>()[S16::n9])>, V<1609>>, "pair 9 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n10::ValueType, V<1610>> && Same<JSON_VALUE_TYPE(S16, n10), V<1610>> && Same<Bare<decltype(S16::n10)>, json_::S16Impl::n10> && Same<Bare<decltype(std::declval<S16 &>()[S16::n10])>, V<1610>>, "pair 10 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n11::ValueType, V<1611>> && Same<JSON_VALUE_TYPE(S16, n11), V<1611>> && Same<Bare<decltype(S16::n11)>, json_::S16Impl::n11> && Same<Bare<decltype(std::declval<S16 &>()[S16::n11])>, V<1611>>, "pair 11 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n12::ValueType, V<1612>> && Same<JSON_VALUE_TYPE(S16, n12), V<1612>> && Same<Bare<decltype(S16::n12)>, json_::S16Impl::n12> && Same<Bare<decltype(std::declval<S16 &>()[S16::n12])>, V<1612>>, "pair 12 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n13::ValueType, V<1613>> && Same<JSON_VALUE_TYPE(S16, n13), V<1613>> && Same<Bare<decltype(S16::n13)>, json_::S16Impl::n13> && Same<Bare<decltype(std::declval<S16 &>()[S16::n13])>, V<1613>>, "pair 13 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n14::ValueType, V<1614>> && Same<JSON_VALUE_TYPE(S16, n14), V<1614>> && Same<Bare<decltype(S16::n14)>, json_::S16Impl::n14> && Same<Bare<decltype(std::declval<S16 &>()[S16::n14])>, V<1614>>, "pair 14 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n15::ValueType, V<1615>> && Same<JSON_VALUE_TYPE(S16, n15), V<1615>> && Same<Bare<decltype(S16::n15)>, json_::S16Impl::n15> && Same<Bare<decltype(std::declval<S16 &>()[S16::n15])>, V<1615>>, "pair 15 of 16 does not have its type");
static_assert(Same<json_::S16Impl::n16::ValueType, std::pair<V<16>, V<16>>> && Same<JSON_VALUE_TYPE(S16, n16), std::pair<V<16>, V<16>>> && Same<Bare<decltype(S16::n16)>, json_::S16Impl::n16> && Same<Bare<decltype(std::declval<S16 &>()[S16::n16])>, std::pair<V<16>, V<16>>>, "pair 16 of 16 does not have its type");
static_assert(Is<S16, json_::S16Impl::Base> && Is<json::Traits<S16>, json::Traits<json_::S16Impl::Base>> && !Is<S16, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S17Impl::Base>::Type, std::tuple<json_::S17Impl::n1, json_::S17Impl::n2, json_::S17Impl::n3, json_::S17Impl::n4, json_::S17Impl::n5, json_::S17Impl::n6, json_::S17Impl::n7, json_::S17Impl::n8, json_::S17Impl::n9, json_::S17Impl::n10, json_::S17Impl::n11, json_::S17Impl::n12, json_::S17Impl::n13, json_::S17Impl::n14, json_::S17Impl::n15, json_::S17Impl::n16, json_::S17Impl::n17>>, "the cells of an object are not its 17 pairs in order");
static_assert(Same<json_::S17Impl::n1::ValueType, std::pair<V<17>, V<1>>> && Same<JSON_VALUE_TYPE(S17, n1), std::pair<V<17>, V<1>>> && Same<Bare<decltype(S17::n1)>, json_::S17Impl::n1> && Same<Bare<decltype(std::declval<S17 &>()[S17::n1])>, std::pair<V<17>, V<1>>>, "pair 1 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n2::ValueType, V<1702>> && Same<JSON_VALUE_TYPE(S17, n2), V<1702>> && Same<Bare<decltype(S17::n2)>, json_::S17Impl::n2> && Same<Bare<decltype(std::declval<S17 &>()[S17::n2])>, V<1702>>, "pair 2 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n3::ValueType, V<1703>> && Same<JSON_VALUE_TYPE(S17, n3), V<1703>> && Same<Bare<decltype(S17::n3)>, json_::S17Impl::n3> && Same<Bare<decltype(std::declval<S17 &>()[S17::n3])>, V<1703>>, "pair 3 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n4::ValueType, V<1704>> && Same<JSON_VALUE_TYPE(S17, n4), V<1704>> && Same<Bare<decltype(S17::n4)>, json_::S17Impl::n4> && Same<Bare<decltype(std::declval<S17 &>()[S17::n4])>, V<1704>>, "pair 4 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n5::ValueType, V<1705>> && Same<JSON_VALUE_TYPE(S17, n5), V<1705>> && Same<Bare<decltype(S17::n5)>, json_::S17Impl::n5> && Same<Bare<decltype(std::declval<S17 &>()[S17::n5])>, V<1705>>, "pair 5 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n6::ValueType, V<1706>> && Same<JSON_VALUE_TYPE(S17, n6), V<1706>> && Same<Bare<decltype(S17::n6)>, json_::S17Impl::n6> && Same<Bare<decltype(std::declval<S17 &>()[S17::n6])>, V<1706>>, "pair 6 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n7::ValueType, V<1707>> && Same<JSON_VALUE_TYPE(S17, n7), V<1707>> && Same<Bare<decltype(S17::n7)>, json_::S17Impl::n7> && Same<Bare<decltype(std::declval<S17 &>()[S17::n7])>, V<1707>>, "pair 7 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n8::ValueType, std::pair<V<17>, V<8>>> && Same<JSON_VALUE_TYPE(S17, n8), std::pair<V<17>, V<8>>> && Same<Bare<decltype(S17::n8)>, json_::S17Impl::n8> && Same<Bare<decltype(std::declval<S17 &>()[S17::n8])>, std::pair<V<17>, V<8>>>, "pair 8 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n9::ValueType, V<1709>> && Same<JSON_VALUE_TYPE(S17, n9), V<1709>> && Same<Bare<decltype(S17::n9)>, json_::S17Impl::n9> && Same<Bare<decltype(std::declval<S17 &>()[S17::n9])>, V<1709>>, "pair 9 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n10::ValueType, V<1710>> && Same<JSON_VALUE_TYPE(S17, n10), V<1710>> && Same<Bare<decltype(S17::n10)>, json_::S17Impl::n10> && Same<Bare<decltype(std::declval<S17 &>()[S17::n10])>, V<1710>>, "pair 10 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n11::ValueType, V<1711>> && Same<JSON_VALUE_TYPE(S17, n11), V<1711>> && Same<Bare<decltype(S17::n11)>, json_::S17Impl::n11> && Same<Bare<decltype(std::declval<S17 &>()[S17::n11])>, V<1711>>, "pair 11 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n12::ValueType, V<1712>> && Same<JSON_VALUE_TYPE(S17, n12), V<1712>> && Same<Bare<decltype(S17::n12)>, json_::S17Impl::n12> && Same<Bare<decltype(std::declval<S17 &>()[S17::n12])>, V<1712>>, "pair 12 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n13::ValueType, V<1713>> && Same<JSON_VALUE_TYPE(S17, n13), V<1713>> && Same<Bare<decltype(S17::n13)>, json_::S17Impl::n13> && Same<Bare<decltype(std::declval<S17 &>()[S17::n13])>, V<1713>>, "pair 13 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n14::ValueType, V<1714>> && Same<JSON_VALUE_TYPE(S17, n14), V<1714>> && Same<Bare<decltype(S17::n14)>, json_::S17Impl::n14> && Same<Bare<decltype(std::declval<S17 &>()[S17::n14])>, V<1714>>, "pair 14 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n15::ValueType, V<1715>> && Same<JSON_VALUE_TYPE(S17, n15), V<1715>> && Same<Bare<decltype(S17::n15)>, json_::S17Impl::n15> && Same<Bare<decltype(std::declval<S17 &>()[S17::n15])>, V<1715>>, "pair 15 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n16::ValueType, V<1716>> && Same<JSON_VALUE_TYPE(S17, n16), V<1716>> && Same<Bare<decltype(S17::n16)>, json_::S17Impl::n16> && Same<Bare<decltype(std::declval<S17 &>()[S17::n16])>, V<1716>>, "pair 16 of 17 does not have its type");
static_assert(Same<json_::S17Impl::n17::ValueType, std::pair<V<17>, V<17>>> && Same<JSON_VALUE_TYPE(S17, n17), std::pair<V<17>, V<17>>> && Same<Bare<decltype(S17::n17)>, json_::S17Impl::n17> && Same<Bare<decltype(std::declval<S17 &>()[S17::n17])>, std::pair<V<17>, V<17>>>, "pair 17 of 17 does not have its type");
static_assert(Is<S17, json_::S17Impl::Base> && Is<json::Traits<S17>, json::Traits<json_::S17Impl::Base>> && !Is<S17, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S18Impl::Base>::Type, std::tuple<json_::S18Impl::n1, json_::S18Impl::n2, json_::S18Impl::n3, json_::S18Impl::n4, json_::S18Impl::n5, json_::S18Impl::n6, json_::S18Impl::n7, json_::S18Impl::n8, json_::S18Impl::n9, json_::S18Impl::n10, json_::S18Impl::n11, json_::S18Impl::n12, json_::S18Impl::n13, json_::S18Impl::n14, json_::S18Impl::n15, json_::S18Impl::n16, json_::S18Impl::n17, json_::S18Impl::n18>>, "the cells of an object are not its 18 pairs in order");
static_assert(Same<json_::S18Impl::n1::ValueType, std::pair<V<18>, V<1>>> && Same<JSON_VALUE_TYPE(S18, n1), std::pair<V<18>, V<1>>> && Same<Bare<decltype(S18::n1)>, json_::S18Impl::n1> && Same<Bare<decltype(std::declval<S18 &>()[S18::n1])>, std::pair<V<18>, V<1>>>, "pair 1 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n2::ValueType, V<1802>> && Same<JSON_VALUE_TYPE(S18, n2), V<1802>> && Same<Bare<decltype(S18::n2)>, json_::S18Impl::n2> && Same<Bare<decltype(std::declval<S18 &>()[S18::n2])>, V<1802>>, "pair 2 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n3::ValueType, V<1803>> && Same<JSON_VALUE_TYPE(S18, n3), V<1803>> && Same<Bare<decltype(S18::n3)>, json_::S18Impl::n3> && Same<Bare<decltype(std::declval<S18 &>()[S18::n3])>, V<1803>>, "pair 3 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n4::ValueType, V<1804>> && Same<JSON_VALUE_TYPE(S18, n4), V<1804>> && Same<Bare<decltype(S18::n4)>, json_::S18Impl::n4> && Same<Bare<decltype(std::declval<S18 &>()[S18::n4])>, V<1804>>, "pair 4 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n5::ValueType, V<1805>> && Same<JSON_VALUE_TYPE(S18, n5), V<1805>> && Same<Bare<decltype(S18::n5)>, json_::S18Impl::n5> && Same<Bare<decltype(std::declval<S18 &>()[S18::n5])>, V<1805>>, "pair 5 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n6::ValueType, V<1806>> && Same<JSON_VALUE_TYPE(S18, n6), V<1806>> && Same<Bare<decltype(S18::n6)>, json_::S18Impl::n6> && Same<Bare<decltype(std::declval<S18 &>()[S18::n6])>, V<1806>>, "pair 6 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n7::ValueType, V<1807>> && Same<JSON_VALUE_TYPE(S18, n7), V<1807>> && Same<Bare<decltype(S18::n7)>, json_::S18Impl::n7> && Same<Bare<decltype(std::declval<S18 &>()[S18::n7])>, V<1807>>, "pair 7 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n8::ValueType, V<1808>> && Same<JSON_VALUE_TYPE(S18, n8), V<1808>> && Same<Bare<decltype(S18::n8)>, json_::S18Impl::n8> && Same<Bare<decltype(std::declval<S18 &>()[S18::n8])>, V<1808>>, "pair 8 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n9::ValueType, std::pair<V<18>, V<9>>> && Same<JSON_VALUE_TYPE(S18, n9), std::pair<V<18>, V<9>>> && Same<Bare<decltype(S18::n9)>, json_::S18Impl::n9> && Same<Bare<decltype(std::declval<S18 &>()[S18::n9])>, std::pair<V<18>, V<9>>>, "pair 9 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n10::ValueType, V<1810>> && Same<JSON_VALUE_TYPE(S18, n10), V<1810>> && Same<Bare<decltype(S18::n10)>, json_::S18Impl::n10> && Same<Bare<decltype(std::declval<S18 &>()[S18::n10])>, V<1810>>, "pair 10 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n11::ValueType, V<1811>> && Same<JSON_VALUE_TYPE(S18, n11), V<1811>> && Same<Bare<decltype(S18::n11)>, json_::S18Impl::n11> && Same<Bare<decltype(std::declval<S18 &>()[S18::n11])>, V<1811>>, "pair 11 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n12::ValueType, V<1812>> && Same<JSON_VALUE_TYPE(S18, n12), V<1812>> && Same<Bare<decltype(S18::n12)>, json_::S18Impl::n12> && Same<Bare<decltype(std::declval<S18 &>()[S18::n12])>, V<1812>>, "pair 12 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n13::ValueType, V<1813>> && Same<JSON_VALUE_TYPE(S18, n13), V<1813>> && Same<Bare<decltype(S18::n13)>, json_::S18Impl::n13> && Same<Bare<decltype(std::declval<S18 &>()[S18::n13])>, V<1813>>, "pair 13 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n14::ValueType, V<1814>> && Same<JSON_VALUE_TYPE(S18, n14), V<1814>> && Same<Bare<decltype(S18::n14)>, json_::S18Impl::n14> && Same<Bare<decltype(std::declval<S18 &>()[S18::n14])>, V<1814>>, "pair 14 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n15::ValueType, V<1815>> && Same<JSON_VALUE_TYPE(S18, n15), V<1815>> && Same<Bare<decltype(S18::n15)>, json_::S18Impl::n15> && Same<Bare<decltype(std::declval<S18 &>()[S18::n15])>, V<1815>>, "pair 15 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n16::ValueType, V<1816>> && Same<JSON_VALUE_TYPE(S18, n16), V<1816>> && Same<Bare<decltype(S18::n16)>, json_::S18Impl::n16> && Same<Bare<decltype(std::declval<S18 &>()[S18::n16])>, V<1816>>, "pair 16 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n17::ValueType, V<1817>> && Same<JSON_VALUE_TYPE(S18, n17), V<1817>> && Same<Bare<decltype(S18::n17)>, json_::S18Impl::n17> && Same<Bare<decltype(std::declval<S18 &>()[S18::n17])>, V<1817>>, "pair 17 of 18 does not have its type");
static_assert(Same<json_::S18Impl::n18::ValueType, std::pair<V<18>, V<18>>> && Same<JSON_VALUE_TYPE(S18, n18), std::pair<V<18>, V<18>>> && Same<Bare<decltype(S18::n18)>, json_::S18Impl::n18> && Same<Bare<decltype(std::declval<S18 &>()[S18::n18])>, std::pair<V<18>, V<18>>>, "pair 18 of 18 does not have its type");
static_assert(Is<S18, json_::S18Impl::Base> && Is<json::Traits<S18>, json::Traits<json_::S18Impl::Base>> && !Is<S18, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S19Impl::Base>::Type, std::tuple<json_::S19Impl::n1, json_::S19Impl::n2, json_::S19Impl::n3, json_::S19Impl::n4, json_::S19Impl::n5, json_::S19Impl::n6, json_::S19Impl::n7, json_::S19Impl::n8, json_::S19Impl::n9, json_::S19Impl::n10, json_::S19Impl::n11, json_::S19Impl::n12, json_::S19Impl::n13, json_::S19Impl::n14, json_::S19Impl::n15, json_::S19Impl::n16, json_::S19Impl::n17, json_::S19Impl::n18, json_::S19Impl::n19>>, "the cells of an object are not its 19 pairs in order");
static_assert(Same<json_::S19Impl::n1::ValueType, std::pair<V<19>, V<1>>> && Same<JSON_VALUE_TYPE(S19, n1), std::pair<V<19>, V<1>>> && Same<Bare<decltype(S19::n1)>, json_::S19Impl::n1> && Same<Bare<decltype(std::declval<S19 &>()[S19::n1])>, std::pair<V<19>, V<1>>>, "pair 1 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n2::ValueType, V<1902>> && Same<JSON_VALUE_TYPE(S19, n2), V<1902>> && Same<Bare<decltype(S19::n2)>, json_::S19Impl::n2> && Same<Bare<decltype(std::declval<S19 &>()[S19::n2])>, V<1902>>, "pair 2 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n3::ValueType, V<1903>> && Same<JSON_VALUE_TYPE(S19, n3), V<1903>> && Same<Bare<decltype(S19::n3)>, json_::S19Impl::n3> && Same<Bare<decltype(std::declval<S19 &>()[S19::n3])>, V<1903>>, "pair 3 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n4::ValueType, V<1904>> && Same<JSON_VALUE_TYPE(S19, n4), V<1904>> && Same<Bare<decltype(S19::n4)>, json_::S19Impl::n4> && Same<Bare<decltype(std::declval<S19 &>()[S19::n4])>, V<1904>>, "pair 4 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n5::ValueType, V<1905>> && Same<JSON_VALUE_TYPE(S19, n5), V<1905>> && Same<Bare<decltype(S19::n5)>, json_::S19Impl::n5> && Same<Bare<decltype(std::declval<S19 &>()[S19::n5])>, V<1905>>, "pair 5 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n6::ValueType, V<1906>> && Same<JSON_VALUE_TYPE(S19, n6), V<1906>> && Same<Bare<decltype(S19::n6)>, json_::S19Impl::n6> && Same<Bare<decltype(std::declval<S19 &>()[S19::n6])>, V<1906>>, "pair 6 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n7::ValueType, V<1907>> && Same<JSON_VALUE_TYPE(S19, n7), V<1907>> && Same<Bare<decltype(S19::n7)>, json_::S19Impl::n7> && Same<Bare<decltype(std::declval<S19 &>()[S19::n7])>, V<1907>>, "pair 7 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n8::ValueType, V<1908>> && Same<JSON_VALUE_TYPE(S19, n8), V<1908>> && Same<Bare<decltype(S19::n8)>, json_::S19Impl::n8> && Same<Bare<decltype(std::declval<S19 &>()[S19::n8])>, V<1908>>, "pair 8 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n9::ValueType, std::pair<V<19>, V<9>>> && Same<JSON_VALUE_TYPE(S19, n9), std::pair<V<19>, V<9>>> && Same<Bare<decltype(S19::n9)>, json_::S19Impl::n9> && Same<Bare<decltype(std::declval<S19 &>()[S19::n9])>, std::pair<V<19>, V<9>>>, "pair 9 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n10::ValueType, V<1910>> && Same<JSON_VALUE_TYPE(S19, n10), V<1910>> && Same<Bare<decltype(S19::n10)>, json_::S19Impl::n10> && Same<Bare<decltype(std::declval<S19 &>()[S19::n10])>, V<1910>>, "pair 10 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n11::ValueType, V<1911>> && Same<JSON_VALUE_TYPE(S19, n11), V<1911>> && Same<Bare<decltype(S19::n11)>, json_::S19Impl::n11> && Same<Bare<decltype(std::declval<S19 &>()[S19::n11])>, V<1911>>, "pair 11 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n12::ValueType, V<1912>> && Same<JSON_VALUE_TYPE(S19, n12), V<1912>> && Same<Bare<decltype(S19::n12)>, json_::S19Impl::n12> && Same<Bare<decltype(std::declval<S19 &>()[S19::n12])>, V<1912>>, "pair 12 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n13::ValueType, V<1913>> && Same<JSON_VALUE_TYPE(S19, n13), V<1913>> && Same<Bare<decltype(S19::n13)>, json_::S19Impl::n13> && Same<Bare<decltype(std::declval<S19 &>()[S19::n13])>, V<1913>>, "pair 13 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n14::ValueType, V<1914>> && Same<JSON_VALUE_TYPE(S19, n14), V<1914>> && Same<Bare<decltype(S19::n14)>, json_::S19Impl::n14> && Same<Bare<decltype(std::declval<S19 &>()[S19::n14])>, V<1914>>, "pair 14 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n15::ValueType, V<1915>> && Same<JSON_VALUE_TYPE(S19, n15), V<1915>> && Same<Bare<decltype(S19::n15)>, json_::S19Impl::n15> && Same<Bare<decltype(std::declval<S19 &>()[S19::n15])>, V<1915>>, "pair 15 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n16::ValueType, V<1916>> && Same<JSON_VALUE_TYPE(S19, n16), V<1916>> && Same<Bare<decltype(S19::n16)>, json_::S19Impl::n16> && Same<Bare<decltype(std::declval<S19 &>()[S19::n16])>, V<1916>>, "pair 16 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n17::ValueType, V<1917>> && Same<JSON_VALUE_TYPE(S19, n17), V<1917>> && Same<Bare<decltype(S19::n17)>, json_::S19Impl::n17> && Same<Bare<decltype(std::declval<S19 &>()[S19::n17])>, V<1917>>, "pair 17 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n18::ValueType, V<1918>> && Same<JSON_VALUE_TYPE(S19, n18), V<1918>> && Same<Bare<decltype(S19::n18)>, json_::S19Impl::n18> && Same<Bare<decltype(std::declval<S19 &>()[S19::n18])>, V<1918>>, "pair 18 of 19 does not have its type");
static_assert(Same<json_::S19Impl::n19::ValueType, std::pair<V<19>, V<19>>> && Same<JSON_VALUE_TYPE(S19, n19), std::pair<V<19>, V<19>>> && Same<Bare<decltype(S19::n19)>, json_::S19Impl::n19> && Same<Bare<decltype(std::declval<S19 &>()[S19::n19])>, std::pair<V<19>, V<19>>>, "pair 19 of 19 does not have its type");
static_assert(Is<S19, json_::S19Impl::Base> && Is<json::Traits<S19>, json::Traits<json_::S19Impl::Base>> && !Is<S19, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S20Impl::Base>::Type, std::tuple<json_::S20Impl::n1, json_::S20Impl::n2, json_::S20Impl::n3, json_::S20Impl::n4, json_::S20Impl::n5, json_::S20Impl::n6, json_::S20Impl::n7, json_::S20Impl::n8, json_::S20Impl::n9, json_::S20Impl::n10, json_::S20Impl::n11, json_::S20Impl::n12, json_::S20Impl::n13, json_::S20Impl::n14, json_::S20Impl::n15, json_::S20Impl::n16, json_::S20Impl::n17, json_::S20Impl::n18, json_::S20Impl::n19, json_::S20Impl::n20>>, "the cells of an object are not its 20 pairs in order");
static_assert(Same<json_::S20Impl::n1::ValueType, std::pair<V<20>, V<1>>> && Same<JSON_VALUE_TYPE(S20, n1), std::pair<V<20>, V<1>>> && Same<Bare<decltype(S20::n1)>, json_::S20Impl::n1> && Same<Bare<decltype(std::declval<S20 &>()[S20::n1])>, std::pair<V<20>, V<1>>>, "pair 1 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n2::ValueType, V<2002>> && Same<JSON_VALUE_TYPE(S20, n2), V<2002>> && Same<Bare<decltype(S20::n2)>, json_::S20Impl::n2> && Same<Bare<decltype(std::declval<S20 &>()[S20::n2])>, V<2002>>, "pair 2 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n3::ValueType, V<2003>> && Same<JSON_VALUE_TYPE(S20, n3), V<2003>> && Same<Bare<decltype(S20::n3)>, json_::S20Impl::n3> && Same<Bare<decltype(std::declval<S20 &>()[S20::n3])>, V<2003>>, "pair 3 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n4::ValueType, V<2004>> && Same<JSON_VALUE_TYPE(S20, n4), V<2004>> && Same<Bare<decltype(S20::n4)>, json_::S20Impl::n4> && Same<Bare<decltype(std::declval<S20 &>()[S20::n4])>, V<2004>>, "pair 4 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n5::ValueType, V<2005>> && Same<JSON_VALUE_TYPE(S20, n5), V<2005>> && Same<Bare<decltype(S20::n5)>, json_::S20Impl::n5> && Same<Bare<decltype(std::declval<S20 &>()[S20::n5])>, V<2005>>, "pair 5 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n6::ValueType, V<2006>> && Same<JSON_VALUE_TYPE(S20, n6), V<2006>> && Same<Bare<decltype(S20::n6)>, json_::S20Impl::n6> && Same<Bare<decltype(std::declval<S20 &>()[S20::n6])>, V<2006>>, "pair 6 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n7::ValueType, V<2007>> && Same<JSON_VALUE_TYPE(S20, n7), V<2007>> && Same<Bare<decltype(S20::n7)>, json_::S20Impl::n7> && Same<Bare<decltype(std::declval<S20 &>()[S20::n7])>, V<2007>>, "pair 7 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n8::ValueType, V<2008>> && Same<JSON_VALUE_TYPE(S20, n8), V<2008>> && Same<Bare<decltype(S20::n8)>, json_::S20Impl::n8> && Same<Bare<decltype(std::declval<S20 &>()[S20::n8])>, V<2008>>, "pair 8 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n9::ValueType, V<2009>> && Same<JSON_VALUE_TYPE(S20, n9), V<2009>> && Same<Bare<decltype(S20::n9)>, json_::S20Impl::n9> && Same<Bare<decltype(std::declval<S20 &>()[S20::n9])>, V<2009>>, "pair 9 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n10::ValueType, std::pair<V<20>, V<10>>> && Same<JSON_VALUE_TYPE(S20, n10), std::pair<V<20>, V<10>>> && Same<Bare<decltype(S20::n10)>, json_::S20Impl::n10> && Same<Bare<decltype(std::declval<S20 &>()[S20::n10])>, std::pair<V<20>, V<10>>>, "pair 10 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n11::ValueType, V<2011>> && Same<JSON_VALUE_TYPE(S20, n11), V<2011>> && Same<Bare<decltype(S20::n11)>, json_::S20Impl::n11> && Same<Bare<decltype(std::declval<S20 &>()[S20::n11])>, V<2011>>, "pair 11 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n12::ValueType, V<2012>> && Same<JSON_VALUE_TYPE(S20, n12), V<2012>> && Same<Bare<decltype(S20::n12)>, json_::S20Impl::n12> && Same<Bare<decltype(std::declval<S20 &>()[S20::n12])>, V<2012>>, "pair 12 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n13::ValueType, V<2013>> && Same<JSON_VALUE_TYPE(S20, n13), V<2013>> && Same<Bare<decltype(S20::n13)>, json_::S20Impl::n13> && Same<Bare<decltype(std::declval<S20 &>()[S20::n13])>, V<2013>>, "pair 13 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n14::ValueType, V<2014>> && Same<JSON_VALUE_TYPE(S20, n14), V<2014>> && Same<Bare<decltype(S20::n14)>, json_::S20Impl::n14> && Same<Bare<decltype(std::declval<S20 &>()[S20::n14])>, V<2014>>, "pair 14 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n15::ValueType, V<2015>> && Same<JSON_VALUE_TYPE(S20, n15), V<2015>> && Same<Bare<decltype(S20::n15)>, json_::S20Impl::n15> && Same<Bare<decltype(std::declval<S20 &>()[S20::n15])>, V<2015>>, "pair 15 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n16::ValueType, V<2016>> && Same<JSON_VALUE_TYPE(S20, n16), V<2016>> && Same<Bare<decltype(S20::n16)>, json_::S20Impl::n16> && Same<Bare<decltype(std::declval<S20 &>()[S20::n16])>, V<2016>>, "pair 16 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n17::ValueType, V<2017>> && Same<JSON_VALUE_TYPE(S20, n17), V<2017>> && Same<Bare<decltype(S20::n17)>, json_::S20Impl::n17> && Same<Bare<decltype(std::declval<S20 &>()[S20::n17])>, V<2017>>, "pair 17 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n18::ValueType, V<2018>> && Same<JSON_VALUE_TYPE(S20, n18), V<2018>> && Same<Bare<decltype(S20::n18)>, json_::S20Impl::n18> && Same<Bare<decltype(std::declval<S20 &>()[S20::n18])>, V<2018>>, "pair 18 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n19::ValueType, V<2019>> && Same<JSON_VALUE_TYPE(S20, n19), V<2019>> && Same<Bare<decltype(S20::n19)>, json_::S20Impl::n19> && Same<Bare<decltype(std::declval<S20 &>()[S20::n19])>, V<2019>>, "pair 19 of 20 does not have its type");
static_assert(Same<json_::S20Impl::n20::ValueType, std::pair<V<20>, V<20>>> && Same<JSON_VALUE_TYPE(S20, n20), std::pair<V<20>, V<20>>> && Same<Bare<decltype(S20::n20)>, json_::S20Impl::n20> && Same<Bare<decltype(std::declval<S20 &>()[S20::n20])>, std::pair<V<20>, V<20>>>, "pair 20 of 20 does not have its type");
static_assert(Is<S20, json_::S20Impl::Base> && Is<json::Traits<S20>, json::Traits<json_::S20Impl::Base>> && !Is<S20, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S21Impl::Base>::Type, std::tuple<json_::S21Impl::n1, json_::S21Impl::n2, json_::S21Impl::n3, json_::S21Impl::n4, json_::S21Impl::n5, json_::S21Impl::n6, json_::S21Impl::n7, json_::S21Impl::n8, json_::S21Impl::n9, json_::S21Impl::n10, json_::S21Impl::n11, json_::S21Impl::n12, json_::S21Impl::n13, json_::S21Impl::n14, json_::S21Impl::n15, json_::S21Impl::n16, json_::S21Impl::n17, json_::S21Impl::n18, json_::S21Impl::n19, json_::S21Impl::n20, json_::S21Impl::n21>>, "the cells of an object are not its 21 pairs in order");
static_assert(Same<json_::S21Impl::n1::ValueType, std::pair<V<21>, V<1>>> && Same<JSON_VALUE_TYPE(S21, n1), std::pair<V<21>, V<1>>> && Same<Bare<decltype(S21::n1)>, json_::S21Impl::n1> && Same<Bare<decltype(std::declval<S21 &>()[S21::n1])>, std::pair<V<21>, V<1>>>, "pair 1 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n2::ValueType, V<2102>> && Same<JSON_VALUE_TYPE(S21, n2), V<2102>> && Same<Bare<decltype(S21::n2)>, json_::S21Impl::n2> && Same<Bare<decltype(std::declval<S21 &>()[S21::n2])>, V<2102>>, "pair 2 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n3::ValueType, V<2103>> && Same<JSON_VALUE_TYPE(S21, n3), V<2103>> && Same<Bare<decltype(S21::n3)>, json_::S21Impl::n3> && Same<Bare<decltype(std::declval<S21 &>()[S21::n3])>, V<2103>>, "pair 3 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n4::ValueType, V<2104>> && Same<JSON_VALUE_TYPE(S21, n4), V<2104>> && Same<Bare<decltype(S21::n4)>, json_::S21Impl::n4> && Same<Bare<decltype(std::declval<S21 &>()[S21::n4])>, V<2104>>, "pair 4 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n5::ValueType, V<2105>> && Same<JSON_VALUE_TYPE(S21, n5), V<2105>> && Same<Bare<decltype(S21::n5)>, json_::S21Impl::n5> && Same<Bare<decltype(std::declval<S21 &>()[S21::n5])>, V<2105>>, "pair 5 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n6::ValueType, V<2106>> && Same<JSON_VALUE_TYPE(S21, n6), V<2106>> && Same<Bare<decltype(S21::n6)>, json_::S21Impl::n6> && Same<Bare<decltype(std::declval<S21 &>()[S21::n6])>, V<2106>>, "pair 6 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n7::ValueType, V<2107>> && Same<JSON_VALUE_TYPE(S21, n7), V<2107>> && Same<Bare<decltype(S21::n7)>, json_::S21Impl::n7> && Same<Bare<decltype(std::declval<S21 &>()[S21::n7])>, V<2107>>, "pair 7 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n8::ValueType, V<2108>> && Same<JSON_VALUE_TYPE(S21, n8), V<2108>> && Same<Bare<decltype(S21::n8)>, json_::S21Impl::n8> && Same<Bare<decltype(std::declval<S21 &>()[S21::n8])>, V<2108>>, "pair 8 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n9::ValueType, V<2109>> && Same<JSON_VALUE_TYPE(S21, n9), V<2109>> && Same<Bare<decltype(S21::n9)>, json_::S21Impl::n9> && Same<Bare<decltype(std::declval<S21 &>()[S21::n9])>, V<2109>>, "pair 9 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n10::ValueType, std::pair<V<21>, V<10>>> && Same<JSON_VALUE_TYPE(S21, n10), std::pair<V<21>, V<10>>> && Same<Bare<decltype(S21::n10)>, json_::S21Impl::n10> && Same<Bare<decltype(std::declval<S21 &>()[S21::n10])>, std::pair<V<21>, V<10>>>, "pair 10 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n11::ValueType, V<2111>> && Same<JSON_VALUE_TYPE(S21, n11), V<2111>> && Same<Bare<decltype(S21::n11)>, json_::S21Impl::n11> && Same<Bare<decltype(std::declval<S21 &>()[S21::n11])>, V<2111>>, "pair 11 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n12::ValueType, V<2112>> && Same<JSON_VALUE_TYPE(S21, n12), V<2112>> && Same<Bare<decltype(S21::n12)>, json_::S21Impl::n12> && Same<Bare<decltype(std::declval<S21 &>()[S21::n12])>, V<2112>>, "pair 12 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n13::ValueType, V<2113>> && Same<JSON_VALUE_TYPE(S21, n13), V<2113>> && Same<Bare<decltype(S21::n13)>, json_::S21Impl::n13> && Same<Bare<decltype(std::declval<S21 &>()[S21::n13])>, V<2113>>, "pair 13 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n14::ValueType, V<2114>> && Same<JSON_VALUE_TYPE(S21, n14), V<2114>> && Same<Bare<decltype(S21::n14)>, json_::S21Impl::n14> && Same<Bare<decltype(std::declval<S21 &>()[S21::n14])>, V<2114>>, "pair 14 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n15::ValueType, V<2115>> && Same<JSON_VALUE_TYPE(S21, n15), V<2115>> && Same<Bare<decltype(S21::n15)>, json_::S21Impl::n15> && Same<Bare<decltype(std::declval<S21 &>()[S21::n15])>, V<2115>>, "pair 15 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n16::ValueType, V<2116>> && Same<JSON_VALUE_TYPE(S21, n16), V<2116>> && Same<Bare<decltype(S21::n16)>, json_::S21Impl::n16> && Same<Bare<decltype(std::declval<S21 &>()[S21::n16])>, V<2116>>, "pair 16 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n17::ValueType, V<2117>> && Same<JSON_VALUE_TYPE(S21, n17), V<2117>> && Same<Bare<decltype(S21::n17)>, json_::S21Impl::n17> && Same<Bare<decltype(std::declval<S21 &>()[S21::n17])>, V<2117>>, "pair 17 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n18::ValueType, V<2118>> && Same<JSON_VALUE_TYPE(S21, n18), V<2118>> && Same<Bare<decltype(S21::n18)>, json_::S21Impl::n18> && Same<Bare<decltype(std::declval<S21 &>()[S21::n18])>, V<2118>>, "pair 18 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n19::ValueType, V<2119>> && Same<JSON_VALUE_TYPE(S21, n19), V<2119>> && Same<Bare<decltype(S21::n19)>, json_::S21Impl::n19> && Same<Bare<decltype(std::declval<S21 &>()[S21::n19])>, V<2119>>, "pair 19 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n20::ValueType, V<2120>> && Same<JSON_VALUE_TYPE(S21, n20), V<2120>> && Same<Bare<decltype(S21::n20)>, json_::S21Impl::n20> && Same<Bare<decltype(std::declval<S21 &>()[S21::n20])>, V<2120>>, "pair 20 of 21 does not have its type");
static_assert(Same<json_::S21Impl::n21::ValueType, std::pair<V<21>, V<21>>> && Same<JSON_VALUE_TYPE(S21, n21), std::pair<V<21>, V<21>>> && Same<Bare<decltype(S21::n21)>, json_::S21Impl::n21> && Same<Bare<decltype(std::declval<S21 &>()[S21::n21])>, std::pair<V<21>, V<21>>>, "pair 21 of 21 does not have its type");
static_assert(Is<S21, json_::S21Impl::Base> && Is<json::Traits<S21>, json::Traits<json_::S21Impl::Base>> && !Is<S21, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S22Impl::Base>::Type, std::tuple<json_::S22Impl::n1, json_::S22Impl::n2, json_::S22Impl::n3, json_::S22Impl::n4, json_::S22Impl::n5, json_::S22Impl::n6, json_::S22Impl::n7, json_::S22Impl::n8, json_::S22Impl::n9, json_::S22Impl::n10, json_::S22Impl::n11, json_::S22Impl::n12, json_::S22Impl::n13, json_::S22Impl::n14, json_::S22Impl::n15, json_::S22Impl::n16, json_::S22Impl::n17, json_::S22Impl::n18, json_::S22Impl::n19, json_::S22Impl::n20, json_::S22Impl::n21, json_::S22Impl::n22>>, "the cells of an object are not its 22 pairs in order");
static_assert(Same<json_::S22Impl::n1::ValueType, std::pair<V<22>, V<1>>> && Same<JSON_VALUE_TYPE(S22, n1), std::pair<V<22>, V<1>>> && Same<Bare<decltype(S22::n1)>, json_::S22Impl::n1> && Same<Bare<decltype(std::declval<S22 &>()[S22::n1])>, std::pair<V<22>, V<1>>>, "pair 1 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n2::ValueType, V<2202>> && Same<JSON_VALUE_TYPE(S22, n2), V<2202>> && Same<Bare<decltype(S22::n2)>, json_::S22Impl::n2> && Same<Bare<decltype(std::declval<S22 &>()[S22::n2])>, V<2202>>, "pair 2 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n3::ValueType, V<2203>> && Same<JSON_VALUE_TYPE(S22, n3), V<2203>> && Same<Bare<decltype(S22::n3)>, json_::S22Impl::n3> && Same<Bare<decltype(std::declval<S22 &>()[S22::n3])>, V<2203>>, "pair 3 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n4::ValueType, V<2204>> && Same<JSON_VALUE_TYPE(S22, n4), V<2204>> && Same<Bare<decltype(S22::n4)>, json_::S22Impl::n4> && Same<Bare<decltype(std::declval<S22 &>()[S22::n4])>, V<2204>>, "pair 4 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n5::ValueType, V<2205>> && Same<JSON_VALUE_TYPE(S22, n5), V<2205>> && Same<Bare<decltype(S22::n5)>, json_::S22Impl::n5> && Same<Bare<decltype(std::declval<S22 &>()[S22::n5])>, V<2205>>, "pair 5 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n6::ValueType, V<2206>> && Same<JSON_VALUE_TYPE(S22, n6), V<2206>> && Same<Bare<decltype(S22::n6)>, json_::S22Impl::n6> && Same<Bare<decltype(std::declval<S22 &>()[S22::n6])>, V<2206>>, "pair 6 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n7::ValueType, V<2207>> && Same<JSON_VALUE_TYPE(S22, n7), V<2207>> && Same<Bare<decltype(S22::n7)>, json_::S22Impl::n7> && Same<Bare<decltype(std::declval<S22 &>()[S22::n7])>, V<2207>>, "pair 7 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n8::ValueType, V<2208>> && Same<JSON_VALUE_TYPE(S22, n8), V<2208>> && Same<Bare<decltype(S22::n8)>, json_::S22Impl::n8> && Same<Bare<decltype(std::declval<S22 &>()[S22::n8])>, V<2208>>, "pair 8 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n9::ValueType, V<2209>> && Same<JSON_VALUE_TYPE(S22, n9), V<2209>> && Same<Bare<decltype(S22::n9)>, json_::S22Impl::n9> && Same<Bare<decltype(std::declval<S22 &>()[S22::n9])>, V<2209>>, "pair 9 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n10::ValueType, V<2210>> && Same<JSON_VALUE_TYPE(S22, n10), V<2210>> && Same<Bare<decltype(S22::n10)>, json_::S22Impl::n10> && Same<Bare<decltype(std::declval<S22 &>()[S22::n10])>, V<2210>>, "pair 10 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n11::ValueType, std::pair<V<22>, V<11>>> && Same<JSON_VALUE_TYPE(S22, n11), std::pair<V<22>, V<11>>> && Same<Bare<decltype(S22::n11)>, json_::S22Impl::n11> && Same<Bare<decltype(std::declval<S22 &>()[S22::n11])>, std::pair<V<22>, V<11>>>, "pair 11 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n12::ValueType, V<2212>> && Same<JSON_VALUE_TYPE(S22, n12), V<2212>> && Same<Bare<decltype(S22::n12)>, json_::S22Impl::n12> && Same<Bare<decltype(std::declval<S22 &>()[S22::n12])>, V<2212>>, "pair 12 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n13::ValueType, V<2213>> && Same<JSON_VALUE_TYPE(S22, n13), V<2213>> && Same<Bare<decltype(S22::n13)>, json_::S22Impl::n13> && Same<Bare<decltype(std::declval<S22 &>()[S22::n13])>, V<2213>>, "pair 13 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n14::ValueType, V<2214>> && Same<JSON_VALUE_TYPE(S22, n14), V<2214>> && Same<Bare<decltype(S22::n14)>, json_::S22Impl::n14> && Same<Bare<decltype(std::declval<S22 &>()[S22::n14])>, V<2214>>, "pair 14 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n15::ValueType, V<2215>> && Same<JSON_VALUE_TYPE(S22, n15), V<2215>> && Same<Bare<decltype(S22::n15)>, json_::S22Impl::n15> && Same<Bare<decltype(std::declval<S22 &>()[S22::n15])>, V<2215>>, "pair 15 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n16::ValueType, V<2216>> && Same<JSON_VALUE_TYPE(S22, n16), V<2216>> && Same<Bare<decltype(S22::n16)>, json_::S22Impl::n16> && Same<Bare<decltype(std::declval<S22 &>()[S22::n16])>, V<2216>>, "pair 16 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n17::ValueType, V<2217>> && Same<JSON_VALUE_TYPE(S22, n17), V<2217>> && Same<Bare<decltype(S22::n17)>, json_::S22Impl::n17> && Same<Bare<decltype(std::declval<S22 &>()[S22::n17])>, V<2217>>, "pair 17 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n18::ValueType, V<2218>> && Same<JSON_VALUE_TYPE(S22, n18), V<2218>> && Same<Bare<decltype(S22::n18)>, json_::S22Impl::n18> && Same<Bare<decltype(std::declval<S22 &>()[S22::n18])>, V<2218>>, "pair 18 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n19::ValueType, V<2219>> && Same<JSON_VALUE_TYPE(S22, n19), V<2219>> && Same<Bare<decltype(S22::n19)>, json_::S22Impl::n19> && Same<Bare<decltype(std::declval<S22 &>()[S22::n19])>, V<2219>>, "pair 19 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n20::ValueType, V<2220>> && Same<JSON_VALUE_TYPE(S22, n20), V<2220>> && Same<Bare<decltype(S22::n20)>, json_::S22Impl::n20> && Same<Bare<decltype(std::declval<S22 &>()[S22::n20])>, V<2220>>, "pair 20 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n21::ValueType, V<2221>> && Same<JSON_VALUE_TYPE(S22, n21), V<2221>> && Same<Bare<decltype(S22::n21)>, json_::S22Impl::n21> && Same<Bare<decltype(std::declval<S22 &>()[S22::n21])>, V<2221>>, "pair 21 of 22 does not have its type");
static_assert(Same<json_::S22Impl::n22::ValueType, std::pair<V<22>, V<22>>> && Same<JSON_VALUE_TYPE(S22, n22), std::pair<V<22>, V<22>>> && Same<Bare<decltype(S22::n22)>, json_::S22Impl::n22> && Same<Bare<decltype(std::declval<S22 &>()[S22::n22])>, std::pair<V<22>, V<22>>>, "pair 22 of 22 does not have its type");
static_assert(Is<S22, json_::S22Impl::Base> && Is<json::Traits<S22>, json::Traits<json_::S22Impl::Base>> && !Is<S22, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S23Impl::Base>::Type, std::tuple<json_::S23Impl::n1, json_::S23Impl::n2, json_::S23Impl::n3, json_::S23Impl::n4, json_::S23Impl::n5, json_::S23Impl::n6, json_::S23Impl::n7, json_::S23Impl::n8, json_::S23Impl::n9, json_::S23Impl::n10, json_::S23Impl::n11, json_::S23Impl::n12, json_::S23Impl::n13, json_::S23Impl::n14, json_::S23Impl::n15, json_::S23Impl::n16, json_::S23Impl::n17, json_::S23Impl::n18, json_::S23Impl::n19, json_::S23Impl::n20, json_::S23Impl::n21, json_::S23Impl::n22, json_::S23Impl::n23>>, "the cells of an object are not its 23 pairs in order");
static_assert(Same<json_::S23Impl::n1::ValueType, std::pair<V<23>, V<1>>> && Same<JSON_VALUE_TYPE(S23, n1), std::pair<V<23>, V<1>>> && Same<Bare<decltype(S23::n1)>, json_::S23Impl::n1> && Same<Bare<decltype(std::declval<S23 &>()[S23::n1])>, std::pair<V<23>, V<1>>>, "pair 1 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n2::ValueType, V<2302>> && Same<JSON_VALUE_TYPE(S23, n2), V<2302>> && Same<Bare<decltype(S23::n2)>, json_::S23Impl::n2> && Same<Bare<decltype(std::declval<S23 &>()[S23::n2])>, V<2302>>, "pair 2 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n3::ValueType, V<2303>> && Same<JSON_VALUE_TYPE(S23, n3), V<2303>> && Same<Bare<decltype(S23::n3)>, json_::S23Impl::n3> && Same<Bare<decltype(std::declval<S23 &>()[S23::n3])>, V<2303>>, "pair 3 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n4::ValueType, V<2304>> && Same<JSON_VALUE_TYPE(S23, n4), V<2304>> && Same<Bare<decltype(S23::n4)>, json_::S23Impl::n4> && Same<Bare<decltype(std::declval<S23 &>()[S23::n4])>, V<2304>>, "pair 4 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n5::ValueType, V<2305>> && Same<JSON_VALUE_TYPE(S23, n5), V<2305>> && Same<Bare<decltype(S23::n5)>, json_::S23Impl::n5> && Same<Bare<decltype(std::declval<S23 &>()[S23::n5])>, V<2305>>, "pair 5 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n6::ValueType, V<2306>> && Same<JSON_VALUE_TYPE(S23, n6), V<2306>> && Same<Bare<decltype(S23::n6)>, json_::S23Impl::n6> && Same<Bare<decltype(std::declval<S23 &>()[S23::n6])>, V<2306>>, "pair 6 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n7::ValueType, V<2307>> && Same<JSON_VALUE_TYPE(S23, n7), V<2307>> && Same<Bare<decltype(S23::n7)>, json_::S23Impl::n7> && Same<Bare<decltype(std::declval<S23 &>()[S23::n7])>, V<2307>>, "pair 7 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n8::ValueType, V<2308>> && Same<JSON_VALUE_TYPE(S23, n8), V<2308>> && Same<Bare<decltype(S23::n8)>, json_::S23Impl::n8> && Same<Bare<decltype(std::declval<S23 &>()[S23::n8])>, V<2308>>, "pair 8 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n9::ValueType, V<2309>> && Same<JSON_VALUE_TYPE(S23, n9), V<2309>> && Same<Bare<decltype(S23::n9)>, json_::S23Impl::n9> && Same<Bare<decltype(std::declval<S23 &>()[S23::n9])>, V<2309>>, "pair 9 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n10::ValueType, V<2310>> && Same<JSON_VALUE_TYPE(S23, n10), V<2310>> && Same<Bare<decltype(S23::n10)>, json_::S23Impl::n10> && Same<Bare<decltype(std::declval<S23 &>()[S23::n10])>, V<2310>>, "pair 10 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n11::ValueType, std::pair<V<23>, V<11>>> && Same<JSON_VALUE_TYPE(S23, n11), std::pair<V<23>, V<11>>> && Same<Bare<decltype(S23::n11)>, json_::S23Impl::n11> && Same<Bare<decltype(std::declval<S23 &>()[S23::n11])>, std::pair<V<23>, V<11>>>, "pair 11 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n12::ValueType, V<2312>> && Same<JSON_VALUE_TYPE(S23, n12), V<2312>> && Same<Bare<decltype(S23::n12)>, json_::S23Impl::n12> && Same<Bare<decltype(std::declval<S23 &>()[S23::n12])>, V<2312>>, "pair 12 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n13::ValueType, V<2313>> && Same<JSON_VALUE_TYPE(S23, n13), V<2313>> && Same<Bare<decltype(S23::n13)>, json_::S23Impl::n13> && Same<Bare<decltype(std::declval<S23 &>()[S23::n13])>, V<2313>>, "pair 13 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n14::ValueType, V<2314>> && Same<JSON_VALUE_TYPE(S23, n14), V<2314>> && Same<Bare<decltype(S23::n14)>, json_::S23Impl::n14> && Same<Bare<decltype(std::declval<S23 &>()[S23::n14])>, V<2314>>, "pair 14 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n15::ValueType, V<2315>> && Same<JSON_VALUE_TYPE(S23, n15), V<2315>> && Same<Bare<decltype(S23::n15)>, json_::S23Impl::n15> && Same<Bare<decltype(std::declval<S23 &>()[S23::n15])>, V<2315>>, "pair 15 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n16::ValueType, V<2316>> && Same<JSON_VALUE_TYPE(S23, n16), V<2316>> && Same<Bare<decltype(S23::n16)>, json_::S23Impl::n16> && Same<Bare<decltype(std::declval<S23 &>()[S23::n16])>, V<2316>>, "pair 16 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n17::ValueType, V<2317>> && Same<JSON_VALUE_TYPE(S23, n17), V<2317>> && Same<Bare<decltype(S23::n17)>, json_::S23Impl::n17> && Same<Bare<decltype(std::declval<S23 &>()[S23::n17])>, V<2317>>, "pair 17 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n18::ValueType, V<2318>> && Same<JSON_VALUE_TYPE(S23, n18), V<2318>> && Same<Bare<decltype(S23::n18)>, json_::S23Impl::n18> && Same<Bare<decltype(std::declval<S23 &>()[S23::n18])>, V<2318>>, "pair 18 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n19::ValueType, V<2319>> && Same<JSON_VALUE_TYPE(S23, n19), V<2319>> && Same<Bare<decltype(S23::n19)>, json_::S23Impl::n19> && Same<Bare<decltype(std::declval<S23 &>()[S23::n19])>, V<2319>>, "pair 19 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n20::ValueType, V<2320>> && Same<JSON_VALUE_TYPE(S23, n20), V<2320>> && Same<Bare<decltype(S23::n20)>, json_::S23Impl::n20> && Same<Bare<decltype(std::declval<S23 &>()[S23::n20])>, V<2320>>, "pair 20 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n21::ValueType, V<2321>> && Same<JSON_VALUE_TYPE(S23, n21), V<2321>> && Same<Bare<decltype(S23::n21)>, json_::S23Impl::n21> && Same<Bare<decltype(std::declval<S23 &>()[S23::n21])>, V<2321>>, "pair 21 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n22::ValueType, V<2322>> && Same<JSON_VALUE_TYPE(S23, n22), V<2322>> && Same<Bare<decltype(S23::n22)>, json_::S23Impl::n22> && Same<Bare<decltype(std::declval<S23 &>()[S23::n22])>, V<2322>>, "pair 22 of 23 does not have its type");
static_assert(Same<json_::S23Impl::n23::ValueType, std::pair<V<23>, V<23>>> && Same<JSON_VALUE_TYPE(S23, n23), std::pair<V<23>, V<23>>> && Same<Bare<decltype(S23::n23)>, json_::S23Impl::n23> && Same<Bare<decltype(std::declval<S23 &>()[S23::n23])>, std::pair<V<23>, V<23>>>, "pair 23 of 23 does not have its type");
static_assert(Is<S23, json_::S23Impl::Base> && Is<json::Traits<S23>, json::Traits<json_::S23Impl::Base>> && !Is<S23, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S24Impl::Base>::Type, std::tuple<json_::S24Impl::n1, json_::S24Impl::n2, json_::S24Impl::n3, json_::S24Impl::n4, json_::S24Impl::n5, json_::S24Impl::n6, json_::S24Impl::n7, json_::S24Impl::n8, json_::S24Impl::n9, json_::S24Impl::n10, json_::S24Impl::n11, json_::S24Impl::n12, json_::S24Impl::n13, json_::S24Impl::n14, json_::S24Impl::n15, json_::S24Impl::n16, json_::S24Impl::n17, json_::S24Impl::n18, json_::S24Impl::n19, json_::S24Impl::n20, json_::S24Impl::n21, json_::S24Impl::n22, json_::S24Impl::n23, json_::S24Impl::n24>>, "the cells of an object are not its 24 pairs in order");
static_assert(Same<json_::S24Impl::n1::ValueType, std::pair<V<24>, V<1>>> && Same<JSON_VALUE_TYPE(S24, n1), std::pair<V<24>, V<1>>> && Same<Bare<decltype(S24::n1)>, json_::S24Impl::n1> && Same<Bare<decltype(std::declval<S24 &>()[S24::n1])>, std::pair<V<24>, V<1>>>, "pair 1 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n2::ValueType, V<2402>> && Same<JSON_VALUE_TYPE(S24, n2), V<2402>> && Same<Bare<decltype(S24::n2)>, json_::S24Impl::n2> && Same<Bare<decltype(std::declval<S24 &>()[S24::n2])>, V<2402>>, "pair 2 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n3::ValueType, V<2403>> && Same<JSON_VALUE_TYPE(S24, n3), V<2403>> && Same<Bare<decltype(S24::n3)>, json_::S24Impl::n3> && Same<Bare<decltype(std::declval<S24 &>()[S24::n3])>, V<2403>>, "pair 3 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n4::ValueType, V<2404>> && Same<JSON_VALUE_TYPE(S24, n4), V<2404>> && Same<Bare<decltype(S24::n4)>, json_::S24Impl::n4> && Same<Bare<decltype(std::declval<S24 &>()[S24::n4])>, V<2404>>, "pair 4 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n5::ValueType, V<2405>> && Same<JSON_VALUE_TYPE(S24, n5), V<2405>> && Same<Bare<decltype(S24::n5)>, json_::S24Impl::n5> && Same<Bare<decltype(std::declval<S24 &>()[S24::n5])>, V<2405>>, "pair 5 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n6::ValueType, V<2406>> && Same<JSON_VALUE_TYPE(S24, n6), V<2406>> && Same<Bare<decltype(S24::n6)>, json_::S24Impl::n6> && Same<Bare<decltype(std::declval<S24 &>()[S24::n6])>, V<2406>>, "pair 6 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n7::ValueType, V<2407>> && Same<JSON_VALUE_TYPE(S24, n7), V<2407>> && Same<Bare<decltype(S24::n7)>, json_::S24Impl::n7> && Same<Bare<decltype(std::declval<S24 &>()[S24::n7])>, V<2407>>, "pair 7 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n8::ValueType, V<2408>> && Same<JSON_VALUE_TYPE(S24, n8), V<2408>> && Same<Bare<decltype(S24::n8)>, json_::S24Impl::n8> && Same<Bare<decltype(std::declval<S24 &>()[S24::n8])>, V<2408>>, "pair 8 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n9::ValueType, V<2409>> && Same<JSON_VALUE_TYPE(S24, n9), V<2409>> && Same<Bare<decltype(S24::n9)>, json_::S24Impl::n9> && Same<Bare<decltype(std::declval<S24 &>()[S24::n9])>, V<2409>>, "pair 9 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n10::ValueType, V<2410>> && Same<JSON_VALUE_TYPE(S24, n10), V<2410>> && Same<Bare<decltype(S24::n10)>, json_::S24Impl::n10> && Same<Bare<decltype(std::declval<S24 &>()[S24::n10])>, V<2410>>, "pair 10 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n11::ValueType, V<2411>> && Same<JSON_VALUE_TYPE(S24, n11), V<2411>> && Same<Bare<decltype(S24::n11)>, json_::S24Impl::n11> && Same<Bare<decltype(std::declval<S24 &>()[S24::n11])>, V<2411>>, "pair 11 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n12::ValueType, std::pair<V<24>, V<12>>> && Same<JSON_VALUE_TYPE(S24, n12), std::pair<V<24>, V<12>>> && Same<Bare<decltype(S24::n12)>, json_::S24Impl::n12> && Same<Bare<decltype(std::declval<S24 &>()[S24::n12])>, std::pair<V<24>, V<12>>>, "pair 12 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n13::ValueType, V<2413>> && Same<JSON_VALUE_TYPE(S24, n13), V<2413>> && Same<Bare<decltype(S24::n13)>, json_::S24Impl::n13> && Same<Bare<decltype(std::declval<S24 &>()[S24::n13])>, V<2413>>, "pair 13 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n14::ValueType, V<2414>> && Same<JSON_VALUE_TYPE(S24, n14), V<2414>> && Same<Bare<decltype(S24::n14)>, json_::S24Impl::n14> && Same<Bare<decltype(std::declval<S24 &>()[S24::n14])>, V<2414>>, "pair 14 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n15::ValueType, V<2415>> && Same<JSON_VALUE_TYPE(S24, n15), V<2415>> && Same<Bare<decltype(S24::n15)>, json_::S24Impl::n15> && Same<Bare<decltype(std::declval<S24 &>()[S24::n15])>, V<2415>>, "pair 15 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n16::ValueType, V<2416>> && Same<JSON_VALUE_TYPE(S24, n16), V<2416>> && Same<Bare<decltype(S24::n16)>, json_::S24Impl::n16> && Same<Bare<decltype(std::declval<S24 &>()[S24::n16])>, V<2416>>, "pair 16 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n17::ValueType, V<2417>> && Same<JSON_VALUE_TYPE(S24, n17), V<2417>> && Same<Bare<decltype(S24::n17)>, json_::S24Impl::n17> && Same<Bare<decltype(std::declval<S24 &>()[S24::n17])>, V<2417>>, "pair 17 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n18::ValueType, V<2418>> && Same<JSON_VALUE_TYPE(S24, n18), V<2418>> && Same<Bare<decltype(S24::n18)>, json_::S24Impl::n18> && Same<Bare<decltype(std::declval<S24 &>()[S24::n18])>, V<2418>>, "pair 18 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n19::ValueType, V<2419>> && Same<JSON_VALUE_TYPE(S24, n19), V<2419>> && Same<Bare<decltype(S24::n19)>, json_::S24Impl::n19> && Same<Bare<decltype(std::declval<S24 &>()[S24::n19])>, V<2419>>, "pair 19 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n20::ValueType, V<2420>> && Same<JSON_VALUE_TYPE(S24, n20), V<2420>> && Same<Bare<decltype(S24::n20)>, json_::S24Impl::n20> && Same<Bare<decltype(std::declval<S24 &>()[S24::n20])>, V<2420>>, "pair 20 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n21::ValueType, V<2421>> && Same<JSON_VALUE_TYPE(S24, n21), V<2421>> && Same<Bare<decltype(S24::n21)>, json_::S24Impl::n21> && Same<Bare<decltype(std::declval<S24 &>()[S24::n21])>, V<2421>>, "pair 21 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n22::ValueType, V<2422>> && Same<JSON_VALUE_TYPE(S24, n22), V<2422>> && Same<Bare<decltype(S24::n22)>, json_::S24Impl::n22> && Same<Bare<decltype(std::declval<S24 &>()[S24::n22])>, V<2422>>, "pair 22 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n23::ValueType, V<2423>> && Same<JSON_VALUE_TYPE(S24, n23), V<2423>> && Same<Bare<decltype(S24::n23)>, json_::S24Impl::n23> && Same<Bare<decltype(std::declval<S24 &>()[S24::n23])>, V<2423>>, "pair 23 of 24 does not have its type");
static_assert(Same<json_::S24Impl::n24::ValueType, std::pair<V<24>, V<24>>> && Same<JSON_VALUE_TYPE(S24, n24), std::pair<V<24>, V<24>>> && Same<Bare<decltype(S24::n24)>, json_::S24Impl::n24> && Same<Bare<decltype(std::declval<S24 &>()[S24::n24])>, std::pair<V<24>, V<24>>>, "pair 24 of 24 does not have its type");
static_assert(Is<S24, json_::S24Impl::Base> && Is<json::Traits<S24>, json::Traits<json_::S24Impl::Base>> && !Is<S24, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S25Impl::Base>::Type, std::tuple<json_::S25Impl::n1, json_::S25Impl::n2, json_::S25Impl::n3, json_::S25Impl::n4, json_::S25Impl::n5, json_::S25Impl::n6, json_::S25Impl::n7, json_::S25Impl::n8, json_::S25Impl::n9, json_::S25Impl::n10, json_::S25Impl::n11, json_::S25Impl::n12, json_::S25Impl::n13, json_::S25Impl::n14, json_::S25Impl::n15, json_::S25Impl::n16, json_::S25Impl::n17, json_::S25Impl::n18, json_::S25Impl::n19, json_::S25Impl::n20, json_::S25Impl::n21, json_::S25Impl::n22, json_::S25Impl::n23, json_::S25Impl::n24, json_::S25Impl::n25>>, "the cells of an object are not its 25 pairs in order");
static_assert(Same<json_::S25Impl::n1::ValueType, std::pair<V<25>, V<1>>> && Same<JSON_VALUE_TYPE(S25, n1), std::pair<V<25>, V<1>>> && Same<Bare<decltype(S25::n1)>, json_::S25Impl::n1> && Same<Bare<decltype(std::declval<S25 &>()[S25::n1])>, std::pair<V<25>, V<1>>>, "pair 1 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n2::ValueType, V<2502>> && Same<JSON_VALUE_TYPE(S25, n2), V<2502>> && Same<Bare<decltype(S25::n2)>, json_::S25Impl::n2> && Same<Bare<decltype(std::declval<S25 &>()[S25::n2])>, V<2502>>, "pair 2 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n3::ValueType, V<2503>> && Same<JSON_VALUE_TYPE(S25, n3), V<2503>> && Same<Bare<decltype(S25::n3)>, json_::S25Impl::n3> && Same<Bare<decltype(std::declval<S25 &>()[S25::n3])>, V<2503>>, "pair 3 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n4::ValueType, V<2504>> && Same<JSON_VALUE_TYPE(S25, n4), V<2504>> && Same<Bare<decltype(S25::n4)>, json_::S25Impl::n4> && Same<Bare<decltype(std::declval<S25 &>()[S25::n4])>, V<2504>>, "pair 4 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n5::ValueType, V<2505>> && Same<JSON_VALUE_TYPE(S25, n5), V<2505>> && Same<Bare<decltype(S25::n5)>, json_::S25Impl::n5> && Same<Bare<decltype(std::declval<S25 &>()[S25::n5])>, V<2505>>, "pair 5 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n6::ValueType, V<2506>> && Same<JSON_VALUE_TYPE(S25, n6), V<2506>> && Same<Bare<decltype(S25::n6)>, json_::S25Impl::n6> && Same<Bare<decltype(std::declval<S25 &>()[S25::n6])>, V<2506>>, "pair 6 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n7::ValueType, V<2507>> && Same<JSON_VALUE_TYPE(S25, n7), V<2507>> && Same<Bare<decltype(S25::n7)>, json_::S25Impl::n7> && Same<Bare<decltype(std::declval<S25 &>()[S25::n7])>, V<2507>>, "pair 7 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n8::ValueType, V<2508>> && Same<JSON_VALUE_TYPE(S25, n8), V<2508>> && Same<Bare<decltype(S25::n8)>, json_::S25Impl::n8> && Same<Bare<decltype(std::declval<S25 &>()[S25::n8])>, V<2508>>, "pair 8 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n9::ValueType, V<2509>> && Same<JSON_VALUE_TYPE(S25, n9), V<2509>> && Same<Bare<decltype(S25::n9)>, json_::S25Impl::n9> && Same<Bare<decltype(std::declval<S25 &>()[S25::n9])>, V<2509>>, "pair 9 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n10::ValueType, V<2510>> && Same<JSON_VALUE_TYPE(S25, n10), V<2510>> && Same<Bare<decltype(S25::n10)>, json_::S25Impl::n10> && Same<Bare<decltype(std::declval<S25 &>()[S25::n10])>, V<2510>>, "pair 10 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n11::ValueType, V<2511>> && Same<JSON_VALUE_TYPE(S25, n11), V<2511>> && Same<Bare<decltype(S25::n11)>, json_::S25Impl::n11> && Same<Bare<decltype(std::declval<S25 &>()[S25::n11])>, V<2511>>, "pair 11 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n12::ValueType, std::pair<V<25>, V<12>>> && Same<JSON_VALUE_TYPE(S25, n12), std::pair<V<25>, V<12>>> && Same<Bare<decltype(S25::n12)>, json_::S25Impl::n12> && Same<Bare<decltype(std::declval<S25 &>()[S25::n12])>, std::pair<V<25>, V<12>>>, "pair 12 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n13::ValueType, V<2513>> && Same<JSON_VALUE_TYPE(S25, n13), V<2513>> && Same<Bare<decltype(S25::n13)>, json_::S25Impl::n13> && Same<Bare<decltype(std::declval<S25 &>()[S25::n13])>, V<2513>>, "pair 13 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n14::ValueType, V<2514>> && Same<JSON_VALUE_TYPE(S25, n14), V<2514>> && Same<Bare<decltype(S25::n14)>, json_::S25Impl::n14> && Same<Bare<decltype(std::declval<S25 &>()[S25::n14])>, V<2514>>, "pair 14 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n15::ValueType, V<2515>> && Same<JSON_VALUE_TYPE(S25, n15), V<2515>> && Same<Bare<decltype(S25::n15)>, json_::S25Impl::n15> && Same<Bare<decltype(std::declval<S25 &>()[S25::n15])>, V<2515>>, "pair 15 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n16::ValueType, V<2516>> && Same<JSON_VALUE_TYPE(S25, n16), V<2516>> && Same<Bare<decltype(S25::n16)>, json_::S25Impl::n16> && Same<Bare<decltype(std::declval<S25 &>()[S25::n16])>, V<2516>>, "pair 16 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n17::ValueType, V<2517>> && Same<JSON_VALUE_TYPE(S25, n17), V<2517>> && Same<Bare<decltype(S25::n17)>, json_::S25Impl::n17> && Same<Bare<decltype(std::declval<S25 &>()[S25::n17])>, V<2517>>, "pair 17 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n18::ValueType, V<2518>> && Same<JSON_VALUE_TYPE(S25, n18), V<2518>> && Same<Bare<decltype(S25::n18)>, json_::S25Impl::n18> && Same<Bare<decltype(std::declval<S25 &>()[S25::n18])>, V<2518>>, "pair 18 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n19::ValueType, V<2519>> && Same<JSON_VALUE_TYPE(S25, n19), V<2519>> && Same<Bare<decltype(S25::n19)>, json_::S25Impl::n19> && Same<Bare<decltype(std::declval<S25 &>()[S25::n19])>, V<2519>>, "pair 19 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n20::ValueType, V<2520>> && Same<JSON_VALUE_TYPE(S25, n20), V<2520>> && Same<Bare<decltype(S25::n20)>, json_::S25Impl::n20> && Same<Bare<decltype(std::declval<S25 &>()[S25::n20])>, V<2520>>, "pair 20 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n21::ValueType, V<2521>> && Same<JSON_VALUE_TYPE(S25, n21), V<2521>> && Same<Bare<decltype(S25::n21)>, json_::S25Impl::n21> && Same<Bare<decltype(std::declval<S25 &>()[S25::n21])>, V<2521>>, "pair 21 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n22::ValueType, V<2522>> && Same<JSON_VALUE_TYPE(S25, n22), V<2522>> && Same<Bare<decltype(S25::n22)>, json_::S25Impl::n22> && Same<Bare<decltype(std::declval<S25 &>()[S25::n22])>, V<2522>>, "pair 22 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n23::ValueType, V<2523>> && Same<JSON_VALUE_TYPE(S25, n23), V<2523>> && Same<Bare<decltype(S25::n23)>, json_::S25Impl::n23> && Same<Bare<decltype(std::declval<S25 &>()[S25::n23])>, V<2523>>, "pair 23 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n24::ValueType, V<2524>> && Same<JSON_VALUE_TYPE(S25, n24), V<2524>> && Same<Bare<decltype(S25::n24)>, json_::S25Impl::n24> && Same<Bare<decltype(std::declval<S25 &>()[S25::n24])>, V<2524>>, "pair 24 of 25 does not have its type");
static_assert(Same<json_::S25Impl::n25::ValueType, std::pair<V<25>, V<25>>> && Same<JSON_VALUE_TYPE(S25, n25), std::pair<V<25>, V<25>>> && Same<Bare<decltype(S25::n25)>, json_::S25Impl::n25> && Same<Bare<decltype(std::declval<S25 &>()[S25::n25])>, std::pair<V<25>, V<25>>>, "pair 25 of 25 does not have its type");
static_assert(Is<S25, json_::S25Impl::Base> && Is<json::Traits<S25>, json::Traits<json_::S25Impl::Base>> && !Is<S25, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S26Impl::Base>::Type, std::tuple<json_::S26Impl::n1, json_::S26Impl::n2, json_::S26Impl::n3, json_::S26Impl::n4, json_::S26Impl::n5, json_::S26Impl::n6, json_::S26Impl::n7, json_::S26Impl::n8, json_::S26Impl::n9, json_::S26Impl::n10, json_::S26Impl::n11, json_::S26Impl::n12, json_::S26Impl::n13, json_::S26Impl::n14, json_::S26Impl::n15, json_::S26Impl::n16, json_::S26Impl::n17, json_::S26Impl::n18, json_::S26Impl::n19, json_::S26Impl::n20, json_::S26Impl::n21, json_::S26Impl::n22, json_::S26Impl::n23, json_::S26Impl::n24, json_::S26Impl::n25, json_::S26Impl::n26>>, "the cells of an object are not its 26 pairs in order");
static_assert(Same<json_::S26Impl::n1::ValueType, std::pair<V<26>, V<1>>> && Same<JSON_VALUE_TYPE(S26, n1), std::pair<V<26>, V<1>>> && Same<Bare<decltype(S26::n1)>, json_::S26Impl::n1> && Same<Bare<decltype(std::declval<S26 &>()[S26::n1])>, std::pair<V<26>, V<1>>>, "pair 1 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n2::ValueType, V<2602>> && Same<JSON_VALUE_TYPE(S26, n2), V<2602>> && Same<Bare<decltype(S26::n2)>, json_::S26Impl::n2> && Same<Bare<decltype(std::declval<S26 &>()[S26::n2])>, V<2602>>, "pair 2 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n3::ValueType, V<2603>> && Same<JSON_VALUE_TYPE(S26, n3), V<2603>> && Same<Bare<decltype(S26::n3)>, json_::S26Impl::n3> && Same<Bare<decltype(std::declval<S26 &>()[S26::n3])>, V<2603>>, "pair 3 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n4::ValueType, V<2604>> && Same<JSON_VALUE_TYPE(S26, n4), V<2604>> && Same<Bare<decltype(S26::n4)>, json_::S26Impl::n4> && Same<Bare<decltype(std::declval<S26 &>()[S26::n4])>, V<2604>>, "pair 4 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n5::ValueType, V<2605>> && Same<JSON_VALUE_TYPE(S26, n5), V<2605>> && Same<Bare<decltype(S26::n5)>, json_::S26Impl::n5> && Same<Bare<decltype(std::declval<S26 &>()[S26::n5])>, V<2605>>, "pair 5 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n6::ValueType, V<2606>> && Same<JSON_VALUE_TYPE(S26, n6), V<2606>> && Same<Bare<decltype(S26::n6)>, json_::S26Impl::n6> && Same<Bare<decltype(std::declval<S26 &>()[S26::n6])>, V<2606>>, "pair 6 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n7::ValueType, V<2607>> && Same<JSON_VALUE_TYPE(S26, n7), V<2607>> && Same<Bare<decltype(S26::n7)>, json_::S26Impl::n7> && Same<Bare<decltype(std::declval<S26 &>()[S26::n7])>, V<2607>>, "pair 7 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n8::ValueType, V<2608>> && Same<JSON_VALUE_TYPE(S26, n8), V<2608>> && Same<Bare<decltype(S26::n8)>, json_::S26Impl::n8> && Same<Bare<decltype(std::declval<S26 &>()[S26::n8])>, V<2608>>, "pair 8 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n9::ValueType, V<2609>> && Same<JSON_VALUE_TYPE(S26, n9), V<2609>> && Same<Bare<decltype(S26::n9)>, json_::S26Impl::n9> && Same<Bare<decltype(std::declval<S26 &>()[S26::n9])>, V<2609>>, "pair 9 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n10::ValueType, V<2610>> && Same<JSON_VALUE_TYPE(S26, n10), V<2610>> && Same<Bare<decltype(S26::n10)>, json_::S26Impl::n10> && Same<Bare<decltype(std::declval<S26 &>()[S26::n10])>, V<2610>>, "pair 10 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n11::ValueType, V<2611>> && Same<JSON_VALUE_TYPE(S26, n11), V<2611>> && Same<Bare<decltype(S26::n11)>, json_::S26Impl::n11> && Same<Bare<decltype(std::declval<S26 &>()[S26::n11])>, V<2611>>, "pair 11 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n12::ValueType, V<2612>> && Same<JSON_VALUE_TYPE(S26, n12), V<2612>> && Same<Bare<decltype(S26::n12)>, json_::S26Impl::n12> && Same<Bare<decltype(std::declval<S26 &>()[S26::n12])>, V<2612>>, "pair 12 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n13::ValueType, std::pair<V<26>, V<13>>> && Same<JSON_VALUE_TYPE(S26, n13), std::pair<V<26>, V<13>>> && Same<Bare<decltype(S26::n13)>, json_::S26Impl::n13> && Same<Bare<decltype(std::declval<S26 &>()[S26::n13])>, std::pair<V<26>, V<13>>>, "pair 13 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n14::ValueType, V<2614>> && Same<JSON_VALUE_TYPE(S26, n14), V<2614>> && Same<Bare<decltype(S26::n14)>, json_::S26Impl::n14> && Same<Bare<decltype(std::declval<S26 &>()[S26::n14])>, V<2614>>, "pair 14 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n15::ValueType, V<2615>> && Same<JSON_VALUE_TYPE(S26, n15), V<2615>> && Same<Bare<decltype(S26::n15)>, json_::S26Impl::n15> && Same<Bare<decltype(std::declval<S26 &>()[S26::n15])>, V<2615>>, "pair 15 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n16::ValueType, V<2616>> && Same<JSON_VALUE_TYPE(S26, n16), V<2616>> && Same<Bare<decltype(S26::n16)>, json_::S26Impl::n16> && Same<Bare<decltype(std::declval<S26 &>()[S26::n16])>, V<2616>>, "pair 16 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n17::ValueType, V<2617>> && Same<JSON_VALUE_TYPE(S26, n17), V<2617>> && Same<Bare<decltype(S26::n17)>, json_::S26Impl::n17> && Same<Bare<decltype(std::declval<S26 &>()[S26::n17])>, V<2617>>, "pair 17 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n18::ValueType, V<2618>> && Same<JSON_VALUE_TYPE(S26, n18), V<2618>> && Same<Bare<decltype(S26::n18)>, json_::S26Impl::n18> && Same<Bare<decltype(std::declval<S26 &>()[S26::n18])>, V<2618>>, "pair 18 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n19::ValueType, V<2619>> && Same<JSON_VALUE_TYPE(S26, n19), V<2619>> && Same<Bare<decltype(S26::n19)>, json_::S26Impl::n19> && Same<Bare<decltype(std::declval<S26 &>()[S26::n19])>, V<2619>>, "pair 19 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n20::ValueType, V<2620>> && Same<JSON_VALUE_TYPE(S26, n20), V<2620>> && Same<Bare<decltype(S26::n20)>, json_::S26Impl::n20> && Same<Bare<decltype(std::declval<S26 &>()[S26::n20])>, V<2620>>, "pair 20 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n21::ValueType, V<2621>> && Same<JSON_VALUE_TYPE(S26, n21), V<2621>> && Same<Bare<decltype(S26::n21)>, json_::S26Impl::n21> && Same<Bare<decltype(std::declval<S26 &>()[S26::n21])>, V<2621>>, "pair 21 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n22::ValueType, V<2622>> && Same<JSON_VALUE_TYPE(S26, n22), V<2622>> && Same<Bare<decltype(S26::n22)>, json_::S26Impl::n22> && Same<Bare<decltype(std::declval<S26 &>()[S26::n22])>, V<2622>>, "pair 22 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n23::ValueType, V<2623>> && Same<JSON_VALUE_TYPE(S26, n23), V<2623>> && Same<Bare<decltype(S26::n23)>, json_::S26Impl::n23> && Same<Bare<decltype(std::declval<S26 &>()[S26::n23])>, V<2623>>, "pair 23 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n24::ValueType, V<2624>> && Same<JSON_VALUE_TYPE(S26, n24), V<2624>> && Same<Bare<decltype(S26::n24)>, json_::S26Impl::n24> && Same<Bare<decltype(std::declval<S26 &>()[S26::n24])>, V<2624>>, "pair 24 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n25::ValueType, V<2625>> && Same<JSON_VALUE_TYPE(S26, n25), V<2625>> && Same<Bare<decltype(S26::n25)>, json_::S26Impl::n25> && Same<Bare<decltype(std::declval<S26 &>()[S26::n25])>, V<2625>>, "pair 25 of 26 does not have its type");
static_assert(Same<json_::S26Impl::n26::ValueType, std::pair<V<26>, V<26>>> && Same<JSON_VALUE_TYPE(S26, n26), std::pair<V<26>, V<26>>> && Same<Bare<decltype(S26::n26)>, json_::S26Impl::n26> && Same<Bare<decltype(std::declval<S26 &>()[S26::n26])>, std::pair<V<26>, V<26>>>, "pair 26 of 26 does not have its type");
static_assert(Is<S26, json_::S26Impl::Base> && Is<json::Traits<S26>, json::Traits<json_::S26Impl::Base>> && !Is<S26, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S27Impl::Base>::Type, std::tuple<json_::S27Impl::n1, json_::S27Impl::n2, json_::S27Impl::n3, json_::S27Impl::n4, json_::S27Impl::n5, json_::S27Impl::n6, json_::S27Impl::n7, json_::S27Impl::n8, json_::S27Impl::n9, json_::S27Impl::n10, json_::S27Impl::n11, json_::S27Impl::n12, json_::S27Impl::n13, json_::S27Impl::n14, json_::S27Impl::n15, json_::S27Impl::n16, json_::S27Impl::n17, json_::S27Impl::n18, json_::S27Impl::n19, json_::S27Impl::n20, json_::S27Impl::n21, json_::S27Impl::n22, json_::S27Impl::n23, json_::S27Impl::n24, json_::S27Impl::n25, json_::S27Impl::n26, json_::S27Impl::n27>>, "the cells of an object are not its 27 pairs in order");
static_assert(Same<json_::S27Impl::n1::ValueType, std::pair<V<27>, V<1>>> && Same<JSON_VALUE_TYPE(S27, n1), std::pair<V<27>, V<1>>> && Same<Bare<decltype(S27::n1)>, json_::S27Impl::n1> && Same<Bare<decltype(std::declval<S27 &>()[S27::n1])>, std::pair<V<27>, V<1>>>, "pair 1 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n2::ValueType, V<2702>> && Same<JSON_VALUE_TYPE(S27, n2), V<2702>> && Same<Bare<decltype(S27::n2)>, json_::S27Impl::n2> && Same<Bare<decltype(std::declval<S27 &>()[S27::n2])>, V<2702>>, "pair 2 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n3::ValueType, V<2703>> && Same<JSON_VALUE_TYPE(S27, n3), V<2703>> && Same<Bare<decltype(S27::n3)>, json_::S27Impl::n3> && Same<Bare<decltype(std::declval<S27 &>()[S27::n3])>, V<2703>>, "pair 3 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n4::ValueType, V<2704>> && Same<JSON_VALUE_TYPE(S27, n4), V<2704>> && Same<Bare<decltype(S27::n4)>, json_::S27Impl::n4> && Same<Bare<decltype(std::declval<S27 &>()[S27::n4])>, V<2704>>, "pair 4 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n5::ValueType, V<2705>> && Same<JSON_VALUE_TYPE(S27, n5), V<2705>> && Same<Bare<decltype(S27::n5)>, json_::S27Impl::n5> && Same<Bare<decltype(std::declval<S27 &>()[S27::n5])>, V<2705>>, "pair 5 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n6::ValueType, V<2706>> && Same<JSON_VALUE_TYPE(S27, n6), V<2706>> && Same<Bare<decltype(S27::n6)>, json_::S27Impl::n6> && Same<Bare<decltype(std::declval<S27 &>()[S27::n6])>, V<2706>>, "pair 6 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n7::ValueType, V<2707>> && Same<JSON_VALUE_TYPE(S27, n7), V<2707>> && Same<Bare<decltype(S27::n7)>, json_::S27Impl::n7> && Same<Bare<decltype(std::declval<S27 &>()[S27::n7])>, V<2707>>, "pair 7 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n8::ValueType, V<2708>> && Same<JSON_VALUE_TYPE(S27, n8), V<2708>> && Same<Bare<decltype(S27::n8)>, json_::S27Impl::n8> && Same<Bare<decltype(std::declval<S27 &>()[S27::n8])>, V<2708>>, "pair 8 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n9::ValueType, V<2709>> && Same<JSON_VALUE_TYPE(S27, n9), V<2709>> && Same<Bare<decltype(S27::n9)>, json_::S27Impl::n9> && Same<Bare<decltype(std::declval<S27 &>()[S27::n9])>, V<2709>>, "pair 9 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n10::ValueType, V<2710>> && Same<JSON_VALUE_TYPE(S27, n10), V<2710>> && Same<Bare<decltype(S27::n10)>, json_::S27Impl::n10> && Same<Bare<decltype(std::declval<S27 &>()[S27::n10])>, V<2710>>, "pair 10 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n11::ValueType, V<2711>> && Same<JSON_VALUE_TYPE(S27, n11), V<2711>> && Same<Bare<decltype(S27::n11)>, json_::S27Impl::n11> && Same<Bare<decltype(std::declval<S27 &>()[S27::n11])>, V<2711>>, "pair 11 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n12::ValueType, V<2712>> && Same<JSON_VALUE_TYPE(S27, n12), V<2712>> && Same<Bare<decltype(S27::n12)>, json_::S27Impl::n12> && Same<Bare<decltype(std::declval<S27 &>()[S27::n12])>, V<2712>>, "pair 12 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n13::ValueType, std::pair<V<27>, V<13>>> && Same<JSON_VALUE_TYPE(S27, n13), std::pair<V<27>, V<13>>> && Same<Bare<decltype(S27::n13)>, json_::S27Impl::n13> && Same<Bare<decltype(std::declval<S27 &>()[S27::n13])>, std::pair<V<27>, V<13>>>, "pair 13 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n14::ValueType, V<2714>> && Same<JSON_VALUE_TYPE(S27, n14), V<2714>> && Same<Bare<decltype(S27::n14)>, json_::S27Impl::n14> && Same<Bare<decltype(std::declval<S27 &>()[S27::n14])>, V<2714>>, "pair 14 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n15::ValueType, V<2715>> && Same<JSON_VALUE_TYPE(S27, n15), V<2715>> && Same<Bare<decltype(S27::n15)>, json_::S27Impl::n15> && Same<Bare<decltype(std::declval<S27 &>()[S27::n15])>, V<2715>>, "pair 15 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n16::ValueType, V<2716>> && Same<JSON_VALUE_TYPE(S27, n16), V<2716>> && Same<Bare<decltype(S27::n16)>, json_::S27Impl::n16> && Same<Bare<decltype(std::declval<S27 &>()[S27::n16])>, V<2716>>, "pair 16 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n17::ValueType, V<2717>> && Same<JSON_VALUE_TYPE(S27, n17), V<2717>> && Same<Bare<decltype(S27::n17)>, json_::S27Impl::n17> && Same<Bare<decltype(std::declval<S27 &>()[S27::n17])>, V<2717>>, "pair 17 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n18::ValueType, V<2718>> && Same<JSON_VALUE_TYPE(S27, n18), V<2718>> && Same<Bare<decltype(S27::n18)>, json_::S27Impl::n18> && Same<Bare<decltype(std::declval<S27 &>()[S27::n18])>, V<2718>>, "pair 18 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n19::ValueType, V<2719>> && Same<JSON_VALUE_TYPE(S27, n19), V<2719>> && Same<Bare<decltype(S27::n19)>, json_::S27Impl::n19> && Same<Bare<decltype(std::declval<S27 &>()[S27::n19])>, V<2719>>, "pair 19 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n20::ValueType, V<2720>> && Same<JSON_VALUE_TYPE(S27, n20), V<2720>> && Same<Bare<decltype(S27::n20)>, json_::S27Impl::n20> && Same<Bare<decltype(std::declval<S27 &>()[S27::n20])>, V<2720>>, "pair 20 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n21::ValueType, V<2721>> && Same<JSON_VALUE_TYPE(S27, n21), V<2721>> && Same<Bare<decltype(S27::n21)>, json_::S27Impl::n21> && Same<Bare<decltype(std::declval<S27 &>()[S27::n21])>, V<2721>>, "pair 21 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n22::ValueType, V<2722>> && Same<JSON_VALUE_TYPE(S27, n22), V<2722>> && Same<Bare<decltype(S27::n22)>, json_::S27Impl::n22> && Same<Bare<decltype(std::declval<S27 &>()[S27::n22])>, V<2722>>, "pair 22 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n23::ValueType, V<2723>> && Same<JSON_VALUE_TYPE(S27, n23), V<2723>> && Same<Bare<decltype(S27::n23)>, json_::S27Impl::n23> && Same<Bare<decltype(std::declval<S27 &>()[S27::n23])>, V<2723>>, "pair 23 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n24::ValueType, V<2724>> && Same<JSON_VALUE_TYPE(S27, n24), V<2724>> && Same<Bare<decltype(S27::n24)>, json_::S27Impl::n24> && Same<Bare<decltype(std::declval<S27 &>()[S27::n24])>, V<2724>>, "pair 24 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n25::ValueType, V<2725>> && Same<JSON_VALUE_TYPE(S27, n25), V<2725>> && Same<Bare<decltype(S27::n25)>, json_::S27Impl::n25> && Same<Bare<decltype(std::declval<S27 &>()[S27::n25])>, V<2725>>, "pair 25 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n26::ValueType, V<2726>> && Same<JSON_VALUE_TYPE(S27, n26), V<2726>> && Same<Bare<decltype(S27::n26)>, json_::S27Impl::n26> && Same<Bare<decltype(std::declval<S27 &>()[S27::n26])>, V<2726>>, "pair 26 of 27 does not have its type");
static_assert(Same<json_::S27Impl::n27::ValueType, std::pair<V<27>, V<27>>> && Same<JSON_VALUE_TYPE(S27, n27), std::pair<V<27>, V<27>>> && Same<Bare<decltype(S27::n27)>, json_::S27Impl::n27> && Same<Bare<decltype(std::declval<S27 &>()[S27::n27])>, std::pair<V<27>, V<27>>>, "pair 27 of 27 does not have its type");
static_assert(Is<S27, json_::S27Impl::Base> && Is<json::Traits<S27>, json::Traits<json_::S27Impl::Base>> && !Is<S27, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S28Impl::Base>::Type, std::tuple<json_::S28Impl::n1, json_::S28Impl::n2, json_::S28Impl::n3, json_::S28Impl::n4, json_::S28Impl::n5, json_::S28Impl::n6, json_::S28Impl::n7, json_::S28Impl::n8, json_::S28Impl::n9, json_::S28Impl::n10, json_::S28Impl::n11, json_::S28Impl::n12, json_::S28Impl::n13, json_::S28Impl::n14, json_::S28Impl::n15, json_::S28Impl::n16, json_::S28Impl::n17, json_::S28Impl::n18, json_::S28Impl::n19, json_::S28Impl::n20, json_::S28Impl::n21, json_::S28Impl::n22, json_::S28Impl::n23, json_::S28Impl::n24, json_::S28Impl::n25, json_::S28Impl::n26, json_::S28Impl::n27, json_::S28Impl::n28>>, "the cells of an object are not its 28 pairs in order");
static_assert(Same<json_::S28Impl::n1::ValueType, std::pair<V<28>, V<1>>> && Same<JSON_VALUE_TYPE(S28, n1), std::pair<V<28>, V<1>>> && Same<Bare<decltype(S28::n1)>, json_::S28Impl::n1> && Same<Bare<decltype(std::declval<S28 &>()[S28::n1])>, std::pair<V<28>, V<1>>>, "pair 1 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n2::ValueType, V<2802>> && Same<JSON_VALUE_TYPE(S28, n2), V<2802>> && Same<Bare<decltype(S28::n2)>, json_::S28Impl::n2> && Same<Bare<decltype(std::declval<S28 &>()[S28::n2])>, V<2802>>, "pair 2 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n3::ValueType, V<2803>> && Same<JSON_VALUE_TYPE(S28, n3), V<2803>> && Same<Bare<decltype(S28::n3)>, json_::S28Impl::n3> && Same<Bare<decltype(std::declval<S28 &>()[S28::n3])>, V<2803>>, "pair 3 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n4::ValueType, V<2804>> && Same<JSON_VALUE_TYPE(S28, n4), V<2804>> && Same<Bare<decltype(S28::n4)>, json_::S28Impl::n4> && Same<Bare<decltype(std::declval<S28 &>()[S28::n4])>, V<2804>>, "pair 4 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n5::ValueType, V<2805>> && Same<JSON_VALUE_TYPE(S28, n5), V<2805>> && Same<Bare<decltype(S28::n5)>, json_::S28Impl::n5> && Same<Bare<decltype(std::declval<S28 &>()[S28::n5])>, V<2805>>, "pair 5 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n6::ValueType, V<2806>> && Same<JSON_VALUE_TYPE(S28, n6), V<2806>> && Same<Bare<decltype(S28::n6)>, json_::S28Impl::n6> && Same<Bare<decltype(std::declval<S28 &>()[S28::n6])>, V<2806>>, "pair 6 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n7::ValueType, V<2807>> && Same<JSON_VALUE_TYPE(S28, n7), V<2807>> && Same<Bare<decltype(S28::n7)>, json_::S28Impl::n7> && Same<Bare<decltype(std::declval<S28 &>()[S28::n7])>, V<2807>>, "pair 7 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n8::ValueType, V<2808>> && Same<JSON_VALUE_TYPE(S28, n8), V<2808>> && Same<Bare<decltype(S28::n8)>, json_::S28Impl::n8> && Same<Bare<decltype(std::declval<S28 &>()[S28::n8])>, V<2808>>, "pair 8 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n9::ValueType, V<2809>> && Same<JSON_VALUE_TYPE(S28, n9), V<2809>> && Same<Bare<decltype(S28::n9)>, json_::S28Impl::n9> && Same<Bare<decltype(std::declval<S28 &>()[S28::n9])>, V<2809>>, "pair 9 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n10::ValueType, V<2810>> && Same<JSON_VALUE_TYPE(S28, n10), V<2810>> && Same<Bare<decltype(S28::n10)>, json_::S28Impl::n10> && Same<Bare<decltype(std::declval<S28 &>()[S28::n10])>, V<2810>>, "pair 10 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n11::ValueType, V<2811>> && Same<JSON_VALUE_TYPE(S28, n11), V<2811>> && Same<Bare<decltype(S28::n11)>, json_::S28Impl::n11> && Same<Bare<decltype(std::declval<S28 &>()[S28::n11])>, V<2811>>, "pair 11 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n12::ValueType, V<2812>> && Same<JSON_VALUE_TYPE(S28, n12), V<2812>> && Same<Bare<decltype(S28::n12)>, json_::S28Impl::n12> && Same<Bare<decltype(std::declval<S28 &>()[S28::n12])>, V<2812>>, "pair 12 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n13::ValueType, V<2813>> && Same<JSON_VALUE_TYPE(S28, n13), V<2813>> && Same<Bare<decltype(S28::n13)>, json_::S28Impl::n13> && Same<Bare<decltype(std::declval<S28 &>()[S28::n13])>, V<2813>>, "pair 13 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n14::ValueType, std::pair<V<28>, V<14>>> && Same<JSON_VALUE_TYPE(S28, n14), std::pair<V<28>, V<14>>> && Same<Bare<decltype(S28::n14)>, json_::S28Impl::n14> && Same<Bare<decltype(std::declval<S28 &>()[S28::n14])>, std::pair<V<28>, V<14>>>, "pair 14 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n15::ValueType, V<2815>> && Same<JSON_VALUE_TYPE(S28, n15), V<2815>> && Same<Bare<decltype(S28::n15)>, json_::S28Impl::n15> && Same<Bare<decltype(std::declval<S28 &>()[S28::n15])>, V<2815>>, "pair 15 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n16::ValueType, V<2816>> && Same<JSON_VALUE_TYPE(S28, n16), V<2816>> && Same<Bare<decltype(S28::n16)>, json_::S28Impl::n16> && Same<Bare<decltype(std::declval<S28 &>()[S28::n16])>, V<2816>>, "pair 16 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n17::ValueType, V<2817>> && Same<JSON_VALUE_TYPE(S28, n17), V<2817>> && Same<Bare<decltype(S28::n17)>, json_::S28Impl::n17> && Same<Bare<decltype(std::declval<S28 &>()[S28::n17])>, V<2817>>, "pair 17 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n18::ValueType, V<2818>> && Same<JSON_VALUE_TYPE(S28, n18), V<2818>> && Same<Bare<decltype(S28::n18)>, json_::S28Impl::n18> && Same<Bare<decltype(std::declval<S28 &>()[S28::n18])>, V<2818>>, "pair 18 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n19::ValueType, V<2819>> && Same<JSON_VALUE_TYPE(S28, n19), V<2819>> && Same<Bare<decltype(S28::n19)>, json_::S28Impl::n19> && Same<Bare<decltype(std::declval<S28 &>()[S28::n19])>, V<2819>>, "pair 19 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n20::ValueType, V<2820>> && Same<JSON_VALUE_TYPE(S28, n20), V<2820>> && Same<Bare<decltype(S28::n20)>, json_::S28Impl::n20> && Same<Bare<decltype(std::declval<S28 &>()[S28::n20])>, V<2820>>, "pair 20 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n21::ValueType, V<2821>> && Same<JSON_VALUE_TYPE(S28, n21), V<2821>> && Same<Bare<decltype(S28::n21)>, json_::S28Impl::n21> && Same<Bare<decltype(std::declval<S28 &>()[S28::n21])>, V<2821>>, "pair 21 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n22::ValueType, V<2822>> && Same<JSON_VALUE_TYPE(S28, n22), V<2822>> && Same<Bare<decltype(S28::n22)>, json_::S28Impl::n22> && Same<Bare<decltype(std::declval<S28 &>()[S28::n22])>, V<2822>>, "pair 22 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n23::ValueType, V<2823>> && Same<JSON_VALUE_TYPE(S28, n23), V<2823>> && Same<Bare<decltype(S28::n23)>, json_::S28Impl::n23> && Same<Bare<decltype(std::declval<S28 &>()[S28::n23])>, V<2823>>, "pair 23 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n24::ValueType, V<2824>> && Same<JSON_VALUE_TYPE(S28, n24), V<2824>> && Same<Bare<decltype(S28::n24)>, json_::S28Impl::n24> && Same<Bare<decltype(std::declval<S28 &>()[S28::n24])>, V<2824>>, "pair 24 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n25::ValueType, V<2825>> && Same<JSON_VALUE_TYPE(S28, n25), V<2825>> && Same<Bare<decltype(S28::n25)>, json_::S28Impl::n25> && Same<Bare<decltype(std::declval<S28 &>()[S28::n25])>, V<2825>>, "pair 25 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n26::ValueType, V<2826>> && Same<JSON_VALUE_TYPE(S28, n26), V<2826>> && Same<Bare<decltype(S28::n26)>, json_::S28Impl::n26> && Same<Bare<decltype(std::declval<S28 &>()[S28::n26])>, V<2826>>, "pair 26 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n27::ValueType, V<2827>> && Same<JSON_VALUE_TYPE(S28, n27), V<2827>> && Same<Bare<decltype(S28::n27)>, json_::S28Impl::n27> && Same<Bare<decltype(std::declval<S28 &>()[S28::n27])>, V<2827>>, "pair 27 of 28 does not have its type");
static_assert(Same<json_::S28Impl::n28::ValueType, std::pair<V<28>, V<28>>> && Same<JSON_VALUE_TYPE(S28, n28), std::pair<V<28>, V<28>>> && Same<Bare<decltype(S28::n28)>, json_::S28Impl::n28> && Same<Bare<decltype(std::declval<S28 &>()[S28::n28])>, std::pair<V<28>, V<28>>>, "pair 28 of 28 does not have its type");
static_assert(Is<S28, json_::S28Impl::Base> && Is<json::Traits<S28>, json::Traits<json_::S28Impl::Base>> && !Is<S28, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S29Impl::Base>::Type, std::tuple<json_::S29Impl::n1, json_::S29Impl::n2, json_::S29Impl::n3, json_::S29Impl::n4, json_::S29Impl::n5, json_::S29Impl::n6, json_::S29Impl::n7, json_::S29Impl::n8, json_::S29Impl::n9, json_::S29Impl::n10, json_::S29Impl::n11, json_::S29Impl::n12, json_::S29Impl::n13, json_::S29Impl::n14, json_::S29Impl::n15, json_::S29Impl::n16, json_::S29Impl::n17, json_::S29Impl::n18, json_::S29Impl::n19, json_::S29Impl::n20, json_::S29Impl::n21, json_::S29Impl::n22, json_::S29Impl::n23, json_::S29Impl::n24, json_::S29Impl::n25, json_::S29Impl::n26, json_::S29Impl::n27, json_::S29Impl::n28, json_::S29Impl::n29>>, "the cells of an object are not its 29 pairs in order");
static_assert(Same<json_::S29Impl::n1::ValueType, std::pair<V<29>, V<1>>> && Same<JSON_VALUE_TYPE(S29, n1), std::pair<V<29>, V<1>>> && Same<Bare<decltype(S29::n1)>, json_::S29Impl::n1> && Same<Bare<decltype(std::declval<S29 &>()[S29::n1])>, std::pair<V<29>, V<1>>>, "pair 1 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n2::ValueType, V<2902>> && Same<JSON_VALUE_TYPE(S29, n2), V<2902>> && Same<Bare<decltype(S29::n2)>, json_::S29Impl::n2> && Same<Bare<decltype(std::declval<S29 &>()[S29::n2])>, V<2902>>, "pair 2 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n3::ValueType, V<2903>> && Same<JSON_VALUE_TYPE(S29, n3), V<2903>> && Same<Bare<decltype(S29::n3)>, json_::S29Impl::n3> && Same<Bare<decltype(std::declval<S29 &>()[S29::n3])>, V<2903>>, "pair 3 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n4::ValueType, V<2904>> && Same<JSON_VALUE_TYPE(S29, n4), V<2904>> && Same<Bare<decltype(S29::n4)>, json_::S29Impl::n4> && Same<Bare<decltype(std::declval<S29 &>()[S29::n4])>, V<2904>>, "pair 4 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n5::ValueType, V<2905>> && Same<JSON_VALUE_TYPE(S29, n5), V<2905>> && Same<Bare<decltype(S29::n5)>, json_::S29Impl::n5> && Same<Bare<decltype(std::declval<S29 &>()[S29::n5])>, V<2905>>, "pair 5 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n6::ValueType, V<2906>> && Same<JSON_VALUE_TYPE(S29, n6), V<2906>> && Same<Bare<decltype(S29::n6)>, json_::S29Impl::n6> && Same<Bare<decltype(std::declval<S29 &>()[S29::n6])>, V<2906>>, "pair 6 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n7::ValueType, V<2907>> && Same<JSON_VALUE_TYPE(S29, n7), V<2907>> && Same<Bare<decltype(S29::n7)>, json_::S29Impl::n7> && Same<Bare<decltype(std::declval<S29 &>()[S29::n7])>, V<2907>>, "pair 7 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n8::ValueType, V<2908>> && Same<JSON_VALUE_TYPE(S29, n8), V<2908>> && Same<Bare<decltype(S29::n8)>, json_::S29Impl::n8> && Same<Bare<decltype(std::declval<S29 &>()[S29::n8])>, V<2908>>, "pair 8 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n9::ValueType, V<2909>> && Same<JSON_VALUE_TYPE(S29, n9), V<2909>> && Same<Bare<decltype(S29::n9)>, json_::S29Impl::n9> && Same<Bare<decltype(std::declval<S29 &>()[S29::n9])>, V<2909>>, "pair 9 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n10::ValueType, V<2910>> && Same<JSON_VALUE_TYPE(S29, n10), V<2910>> && Same<Bare<decltype(S29::n10)>, json_::S29Impl::n10> && Same<Bare<decltype(std::declval<S29 &>()[S29::n10])>, V<2910>>, "pair 10 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n11::ValueType, V<2911>> && Same<JSON_VALUE_TYPE(S29, n11), V<2911>> && Same<Bare<decltype(S29::n11)>, json_::S29Impl::n11> && Same<Bare<decltype(std::declval<S29 &>()[S29::n11])>, V<2911>>, "pair 11 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n12::ValueType, V<2912>> && Same<JSON_VALUE_TYPE(S29, n12), V<2912>> && Same<Bare<decltype(S29::n12)>, json_::S29Impl::n12> && Same<Bare<decltype(std::declval<S29 &>()[S29::n12])>, V<2912>>, "pair 12 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n13::ValueType, V<2913>> && Same<JSON_VALUE_TYPE(S29, n13), V<2913>> && Same<Bare<decltype(S29::n13)>, json_::S29Impl::n13> && Same<Bare<decltype(std::declval<S29 &>()[S29::n13])>, V<2913>>, "pair 13 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n14::ValueType, std::pair<V<29>, V<14>>> && Same<JSON_VALUE_TYPE(S29, n14), std::pair<V<29>, V<14>>> && Same<Bare<decltype(S29::n14)>, json_::S29Impl::n14> && Same<Bare<decltype(std::declval<S29 &>()[S29::n14])>, std::pair<V<29>, V<14>>>, "pair 14 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n15::ValueType, V<2915>> && Same<JSON_VALUE_TYPE(S29, n15), V<2915>> && Same<Bare<decltype(S29::n15)>, json_::S29Impl::n15> && Same<Bare<decltype(std::declval<S29 &>()[S29::n15])>, V<2915>>, "pair 15 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n16::ValueType, V<2916>> && Same<JSON_VALUE_TYPE(S29, n16), V<2916>> && Same<Bare<decltype(S29::n16)>, json_::S29Impl::n16> && Same<Bare<decltype(std::declval<S29 &>()[S29::n16])>, V<2916>>, "pair 16 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n17::ValueType, V<2917>> && Same<JSON_VALUE_TYPE(S29, n17), V<2917>> && Same<Bare<decltype(S29::n17)>, json_::S29Impl::n17> && Same<Bare<decltype(std::declval<S29 &>()[S29::n17])>, V<2917>>, "pair 17 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n18::ValueType, V<2918>> && Same<JSON_VALUE_TYPE(S29, n18), V<2918>> && Same<Bare<decltype(S29::n18)>, json_::S29Impl::n18> && Same<Bare<decltype(std::declval<S29 &>()[S29::n18])>, V<2918>>, "pair 18 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n19::ValueType, V<2919>> && Same<JSON_VALUE_TYPE(S29, n19), V<2919>> && Same<Bare<decltype(S29::n19)>, json_::S29Impl::n19> && Same<Bare<decltype(std::declval<S29 &>()[S29::n19])>, V<2919>>, "pair 19 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n20::ValueType, V<2920>> && Same<JSON_VALUE_TYPE(S29, n20), V<2920>> && Same<Bare<decltype(S29::n20)>, json_::S29Impl::n20> && Same<Bare<decltype(std::declval<S29 &>()[S29::n20])>, V<2920>>, "pair 20 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n21::ValueType, V<2921>> && Same<JSON_VALUE_TYPE(S29, n21), V<2921>> && Same<Bare<decltype(S29::n21)>, json_::S29Impl::n21> && Same<Bare<decltype(std::declval<S29 &>()[S29::n21])>, V<2921>>, "pair 21 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n22::ValueType, V<2922>> && Same<JSON_VALUE_TYPE(S29, n22), V<2922>> && Same<Bare<decltype(S29::n22)>, json_::S29Impl::n22> && Same<Bare<decltype(std::declval<S29 &>()[S29::n22])>, V<2922>>, "pair 22 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n23::ValueType, V<2923>> && Same<JSON_VALUE_TYPE(S29, n23), V<2923>> && Same<Bare<decltype(S29::n23)>, json_::S29Impl::n23> && Same<Bare<decltype(std::declval<S29 &>()[S29::n23])>, V<2923>>, "pair 23 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n24::ValueType, V<2924>> && Same<JSON_VALUE_TYPE(S29, n24), V<2924>> && Same<Bare<decltype(S29::n24)>, json_::S29Impl::n24> && Same<Bare<decltype(std::declval<S29 &>()[S29::n24])>, V<2924>>, "pair 24 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n25::ValueType, V<2925>> && Same<JSON_VALUE_TYPE(S29, n25), V<2925>> && Same<Bare<decltype(S29::n25)>, json_::S29Impl::n25> && Same<Bare<decltype(std::declval<S29 &>()[S29::n25])>, V<2925>>, "pair 25 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n26::ValueType, V<2926>> && Same<JSON_VALUE_TYPE(S29, n26), V<2926>> && Same<Bare<decltype(S29::n26)>, json_::S29Impl::n26> && Same<Bare<decltype(std::declval<S29 &>()[S29::n26])>, V<2926>>, "pair 26 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n27::ValueType, V<2927>> && Same<JSON_VALUE_TYPE(S29, n27), V<2927>> && Same<Bare<decltype(S29::n27)>, json_::S29Impl::n27> && Same<Bare<decltype(std::declval<S29 &>()[S29::n27])>, V<2927>>, "pair 27 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n28::ValueType, V<2928>> && Same<JSON_VALUE_TYPE(S29, n28), V<2928>> && Same<Bare<decltype(S29::n28)>, json_::S29Impl::n28> && Same<Bare<decltype(std::declval<S29 &>()[S29::n28])>, V<2928>>, "pair 28 of 29 does not have its type");
static_assert(Same<json_::S29Impl::n29::ValueType, std::pair<V<29>, V<29>>> && Same<JSON_VALUE_TYPE(S29, n29), std::pair<V<29>, V<29>>> && Same<Bare<decltype(S29::n29)>, json_::S29Impl::n29> && Same<Bare<decltype(std::declval<S29 &>()[S29::n29])>, std::pair<V<29>, V<29>>>, "pair 29 of 29 does not have its type");
static_assert(Is<S29, json_::S29Impl::Base> && Is<json::Traits<S29>, json::Traits<json_::S29Impl::Base>> && !Is<S29, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::S30Impl::Base>::Type, std::tuple<json_::S30Impl::n1, json_::S30Impl::n2, json_::S30Impl::n3, json_::S30Impl::n4, json_::S30Impl::n5, json_::S30Impl::n6, json_::S30Impl::n7, json_::S30Impl::n8, json_::S30Impl::n9, json_::S30Impl::n10, json_::S30Impl::n11, json_::S30Impl::n12, json_::S30Impl::n13, json_::S30Impl::n14, json_::S30Impl::n15, json_::S30Impl::n16, json_::S30Impl::n17, json_::S30Impl::n18, json_::S30Impl::n19, json_::S30Impl::n20, json_::S30Impl::n21, json_::S30Impl::n22, json_::S30Impl::n23, json_::S30Impl::n24, json_::S30Impl::n25, json_::S30Impl::n26, json_::S30Impl::n27, json_::S30Impl::n28, json_::S30Impl::n29, json_::S30Impl::n30>>, "the cells of an object are not its 30 pairs in order");
static_assert(Same<json_::S30Impl::n1::ValueType, std::pair<V<30>, V<1>>> && Same<JSON_VALUE_TYPE(S30, n1), std::pair<V<30>, V<1>>> && Same<Bare<decltype(S30::n1)>, json_::S30Impl::n1> && Same<Bare<decltype(std::declval<S30 &>()[S30::n1])>, std::pair<V<30>, V<1>>>, "pair 1 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n2::ValueType, V<3002>> && Same<JSON_VALUE_TYPE(S30, n2), V<3002>> && Same<Bare<decltype(S30::n2)>, json_::S30Impl::n2> && Same<Bare<decltype(std::declval<S30 &>()[S30::n2])>, V<3002>>, "pair 2 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n3::ValueType, V<3003>> && Same<JSON_VALUE_TYPE(S30, n3), V<3003>> && Same<Bare<decltype(S30::n3)>, json_::S30Impl::n3> && Same<Bare<decltype(std::declval<S30 &>()[S30::n3])>, V<3003>>, "pair 3 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n4::ValueType, V<3004>> && Same<JSON_VALUE_TYPE(S30, n4), V<3004>> && Same<Bare<decltype(S30::n4)>, json_::S30Impl::n4> && Same<Bare<decltype(std::declval<S30 &>()[S30::n4])>, V<3004>>, "pair 4 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n5::ValueType, V<3005>> && Same<JSON_VALUE_TYPE(S30, n5), V<3005>> && Same<Bare<decltype(S30::n5)>, json_::S30Impl::n5> && Same<Bare<decltype(std::declval<S30 &>()[S30::n5])>, V<3005>>, "pair 5 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n6::ValueType, V<3006>> && Same<JSON_VALUE_TYPE(S30, n6), V<3006>> && Same<Bare<decltype(S30::n6)>, json_::S30Impl::n6> && Same<Bare<decltype(std::declval<S30 &>()[S30::n6])>, V<3006>>, "pair 6 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n7::ValueType, V<3007>> && Same<JSON_VALUE_TYPE(S30, n7), V<3007>> && Same<Bare<decltype(S30::n7)>, json_::S30Impl::n7> && Same<Bare<decltype(std::declval<S30 &>()[S30::n7])>, V<3007>>, "pair 7 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n8::ValueType, V<3008>> && Same<JSON_VALUE_TYPE(S30, n8), V<3008>> && Same<Bare<decltype(S30::n8)>, json_::S30Impl::n8> && Same<Bare<decltype(std::declval<S30 &>()[S30::n8])>, V<3008>>, "pair 8 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n9::ValueType, V<3009>> && Same<JSON_VALUE_TYPE(S30, n9), V<3009>> && Same<Bare<decltype(S30::n9)>, json_::S30Impl::n9> && Same<Bare<decltype(std::declval<S30 &>()[S30::n9])>, V<3009>>, "pair 9 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n10::ValueType, V<3010>> && Same<JSON_VALUE_TYPE(S30, n10), V<3010>> && Same<Bare<decltype(S30::n10)>, json_::S30Impl::n10> && Same<Bare<decltype(std::declval<S30 &>()[S30::n10])>, V<3010>>, "pair 10 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n11::ValueType, V<3011>> && Same<JSON_VALUE_TYPE(S30, n11), V<3011>> && Same<Bare<decltype(S30::n11)>, json_::S30Impl::n11> && Same<Bare<decltype(std::declval<S30 &>()[S30::n11])>, V<3011>>, "pair 11 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n12::ValueType, V<3012>> && Same<JSON_VALUE_TYPE(S30, n12), V<3012>> && Same<Bare<decltype(S30::n12)>, json_::S30Impl::n12> && Same<Bare<decltype(std::declval<S30 &>()[S30::n12])>, V<3012>>, "pair 12 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n13::ValueType, V<3013>> && Same<JSON_VALUE_TYPE(S30, n13), V<3013>> && Same<Bare<decltype(S30::n13)>, json_::S30Impl::n13> && Same<Bare<decltype(std::declval<S30 &>()[S30::n13])>, V<3013>>, "pair 13 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n14::ValueType, V<3014>> && Same<JSON_VALUE_TYPE(S30, n14), V<3014>> && Same<Bare<decltype(S30::n14)>, json_::S30Impl::n14> && Same<Bare<decltype(std::declval<S30 &>()[S30::n14])>, V<3014>>, "pair 14 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n15::ValueType, std::pair<V<30>, V<15>>> && Same<JSON_VALUE_TYPE(S30, n15), std::pair<V<30>, V<15>>> && Same<Bare<decltype(S30::n15)>, json_::S30Impl::n15> && Same<Bare<decltype(std::declval<S30 &>()[S30::n15])>, std::pair<V<30>, V<15>>>, "pair 15 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n16::ValueType, V<3016>> && Same<JSON_VALUE_TYPE(S30, n16), V<3016>> && Same<Bare<decltype(S30::n16)>, json_::S30Impl::n16> && Same<Bare<decltype(std::declval<S30 &>()[S30::n16])>, V<3016>>, "pair 16 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n17::ValueType, V<3017>> && Same<JSON_VALUE_TYPE(S30, n17), V<3017>> && Same<Bare<decltype(S30::n17)>, json_::S30Impl::n17> && Same<Bare<decltype(std::declval<S30 &>()[S30::n17])>, V<3017>>, "pair 17 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n18::ValueType, V<3018>> && Same<JSON_VALUE_TYPE(S30, n18), V<3018>> && Same<Bare<decltype(S30::n18)>, json_::S30Impl::n18> && Same<Bare<decltype(std::declval<S30 &>()[S30::n18])>, V<3018>>, "pair 18 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n19::ValueType, V<3019>> && Same<JSON_VALUE_TYPE(S30, n19), V<3019>> && Same<Bare<decltype(S30::n19)>, json_::S30Impl::n19> && Same<Bare<decltype(std::declval<S30 &>()[S30::n19])>, V<3019>>, "pair 19 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n20::ValueType, V<3020>> && Same<JSON_VALUE_TYPE(S30, n20), V<3020>> && Same<Bare<decltype(S30::n20)>, json_::S30Impl::n20> && Same<Bare<decltype(std::declval<S30 &>()[S30::n20])>, V<3020>>, "pair 20 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n21::ValueType, V<3021>> && Same<JSON_VALUE_TYPE(S30, n21), V<3021>> && Same<Bare<decltype(S30::n21)>, json_::S30Impl::n21> && Same<Bare<decltype(std::declval<S30 &>()[S30::n21])>, V<3021>>, "pair 21 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n22::ValueType, V<3022>> && Same<JSON_VALUE_TYPE(S30, n22), V<3022>> && Same<Bare<decltype(S30::n22)>, json_::S30Impl::n22> && Same<Bare<decltype(std::declval<S30 &>()[S30::n22])>, V<3022>>, "pair 22 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n23::ValueType, V<3023>> && Same<JSON_VALUE_TYPE(S30, n23), V<3023>> && Same<Bare<decltype(S30::n23)>, json_::S30Impl::n23> && Same<Bare<decltype(std::declval<S30 &>()[S30::n23])>, V<3023>>, "pair 23 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n24::ValueType, V<3024>> && Same<JSON_VALUE_TYPE(S30, n24), V<3024>> && Same<Bare<decltype(S30::n24)>, json_::S30Impl::n24> && Same<Bare<decltype(std::declval<S30 &>()[S30::n24])>, V<3024>>, "pair 24 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n25::ValueType, V<3025>> && Same<JSON_VALUE_TYPE(S30, n25), V<3025>> && Same<Bare<decltype(S30::n25)>, json_::S30Impl::n25> && Same<Bare<decltype(std::declval<S30 &>()[S30::n25])>, V<3025>>, "pair 25 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n26::ValueType, V<3026>> && Same<JSON_VALUE_TYPE(S30, n26), V<3026>> && Same<Bare<decltype(S30::n26)>, json_::S30Impl::n26> && Same<Bare<decltype(std::declval<S30 &>()[S30::n26])>, V<3026>>, "pair 26 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n27::ValueType, V<3027>> && Same<JSON_VALUE_TYPE(S30, n27), V<3027>> && Same<Bare<decltype(S30::n27)>, json_::S30Impl::n27> && Same<Bare<decltype(std::declval<S30 &>()[S30::n27])>, V<3027>>, "pair 27 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n28::ValueType, V<3028>> && Same<JSON_VALUE_TYPE(S30, n28), V<3028>> && Same<Bare<decltype(S30::n28)>, json_::S30Impl::n28> && Same<Bare<decltype(std::declval<S30 &>()[S30::n28])>, V<3028>>, "pair 28 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n29::ValueType, V<3029>> && Same<JSON_VALUE_TYPE(S30, n29), V<3029>> && Same<Bare<decltype(S30::n29)>, json_::S30Impl::n29> && Same<Bare<decltype(std::declval<S30 &>()[S30::n29])>, V<3029>>, "pair 29 of 30 does not have its type");
static_assert(Same<json_::S30Impl::n30::ValueType, std::pair<V<30>, V<30>>> && Same<JSON_VALUE_TYPE(S30, n30), std::pair<V<30>, V<30>>> && Same<Bare<decltype(S30::n30)>, json_::S30Impl::n30> && Same<Bare<decltype(std::declval<S30 &>()[S30::n30])>, std::pair<V<30>, V<30>>>, "pair 30 of 30 does not have its type");
static_assert(Is<S30, json_::S30Impl::Base> && Is<json::Traits<S30>, json::Traits<json_::S30Impl::Base>> && !Is<S30, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R1Impl::Base>::Type, std::tuple<json_::R1Impl::n1>>, "the cells of an object are not its 1 pairs in order");
static_assert(Same<json_::R1Impl::n1::ValueType, std::pair<V<1>, V<1>>> && Same<JSON_VALUE_TYPE(R1, n1), std::pair<V<1>, V<1>>> && Same<Bare<decltype(R1::n1)>, json_::R1Impl::n1> && Same<Bare<decltype(std::declval<R1 &>()[R1::n1])>, std::pair<V<1>, V<1>>>, "pair 1 of 1 does not have its type");
static_assert(Is<R1, json_::R1Impl::Base> && Is<json::Traits<R1>, json::Traits<json_::R1Impl::Base>> && Is<R1, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R2Impl::Base>::Type, std::tuple<json_::R2Impl::n1, json_::R2Impl::n2>>, "the cells of an object are not its 2 pairs in order");
static_assert(Same<json_::R2Impl::n1::ValueType, std::pair<V<2>, V<1>>> && Same<JSON_VALUE_TYPE(R2, n1), std::pair<V<2>, V<1>>> && Same<Bare<decltype(R2::n1)>, json_::R2Impl::n1> && Same<Bare<decltype(std::declval<R2 &>()[R2::n1])>, std::pair<V<2>, V<1>>>, "pair 1 of 2 does not have its type");
static_assert(Same<json_::R2Impl::n2::ValueType, std::pair<V<2>, V<2>>> && Same<JSON_VALUE_TYPE(R2, n2), std::pair<V<2>, V<2>>> && Same<Bare<decltype(R2::n2)>, json_::R2Impl::n2> && Same<Bare<decltype(std::declval<R2 &>()[R2::n2])>, std::pair<V<2>, V<2>>>, "pair 2 of 2 does not have its type");
static_assert(Is<R2, json_::R2Impl::Base> && Is<json::Traits<R2>, json::Traits<json_::R2Impl::Base>> && Is<R2, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R3Impl::Base>::Type, std::tuple<json_::R3Impl::n1, json_::R3Impl::n2, json_::R3Impl::n3>>, "the cells of an object are not its 3 pairs in order");
static_assert(Same<json_::R3Impl::n1::ValueType, std::pair<V<3>, V<1>>> && Same<JSON_VALUE_TYPE(R3, n1), std::pair<V<3>, V<1>>> && Same<Bare<decltype(R3::n1)>, json_::R3Impl::n1> && Same<Bare<decltype(std::declval<R3 &>()[R3::n1])>, std::pair<V<3>, V<1>>>, "pair 1 of 3 does not have its type");
static_assert(Same<json_::R3Impl::n2::ValueType, V<302>> && Same<JSON_VALUE_TYPE(R3, n2), V<302>> && Same<Bare<decltype(R3::n2)>, json_::R3Impl::n2> && Same<Bare<decltype(std::declval<R3 &>()[R3::n2])>, V<302>>, "pair 2 of 3 does not have its type");
static_assert(Same<json_::R3Impl::n3::ValueType, std::pair<V<3>, V<3>>> && Same<JSON_VALUE_TYPE(R3, n3), std::pair<V<3>, V<3>>> && Same<Bare<decltype(R3::n3)>, json_::R3Impl::n3> && Same<Bare<decltype(std::declval<R3 &>()[R3::n3])>, std::pair<V<3>, V<3>>>, "pair 3 of 3 does not have its type");
static_assert(Is<R3, json_::R3Impl::Base> && Is<json::Traits<R3>, json::Traits<json_::R3Impl::Base>> && Is<R3, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R4Impl::Base>::Type, std::tuple<json_::R4Impl::n1, json_::R4Impl::n2, json_::R4Impl::n3, json_::R4Impl::n4>>, "the cells of an object are not its 4 pairs in order");
static_assert(Same<json_::R4Impl::n1::ValueType, std::pair<V<4>, V<1>>> && Same<JSON_VALUE_TYPE(R4, n1), std::pair<V<4>, V<1>>> && Same<Bare<decltype(R4::n1)>, json_::R4Impl::n1> && Same<Bare<decltype(std::declval<R4 &>()[R4::n1])>, std::pair<V<4>, V<1>>>, "pair 1 of 4 does not have its type");
static_assert(Same<json_::R4Impl::n2::ValueType, std::pair<V<4>, V<2>>> && Same<JSON_VALUE_TYPE(R4, n2), std::pair<V<4>, V<2>>> && Same<Bare<decltype(R4::n2)>, json_::R4Impl::n2> && Same<Bare<decltype(std::declval<R4 &>()[R4::n2])>, std::pair<V<4>, V<2>>>, "pair 2 of 4 does not have its type");
static_assert(Same<json_::R4Impl::n3::ValueType, V<403>> && Same<JSON_VALUE_TYPE(R4, n3), V<403>> && Same<Bare<decltype(R4::n3)>, json_::R4Impl::n3> && Same<Bare<decltype(std::declval<R4 &>()[R4::n3])>, V<403>>, "pair 3 of 4 does not have its type");
static_assert(Same<json_::R4Impl::n4::ValueType, std::pair<V<4>, V<4>>> && Same<JSON_VALUE_TYPE(R4, n4), std::pair<V<4>, V<4>>> && Same<Bare<decltype(R4::n4)>, json_::R4Impl::n4> && Same<Bare<decltype(std::declval<R4 &>()[R4::n4])>, std::pair<V<4>, V<4>>>, "pair 4 of 4 does not have its type");
static_assert(Is<R4, json_::R4Impl::Base> && Is<json::Traits<R4>, json::Traits<json_::R4Impl::Base>> && Is<R4, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R5Impl::Base>::Type, std::tuple<json_::R5Impl::n1, json_::R5Impl::n2, json_::R5Impl::n3, json_::R5Impl::n4, json_::R5Impl::n5>>, "the cells of an object are not its 5 pairs in order");
static_assert(Same<json_::R5Impl::n1::ValueType, std::pair<V<5>, V<1>>> && Same<JSON_VALUE_TYPE(R5, n1), std::pair<V<5>, V<1>>> && Same<Bare<decltype(R5::n1)>, json_::R5Impl::n1> && Same<Bare<decltype(std::declval<R5 &>()[R5::n1])>, std::pair<V<5>, V<1>>>, "pair 1 of 5 does not have its type");
static_assert(Same<json_::R5Impl::n2::ValueType, std::pair<V<5>, V<2>>> && Same<JSON_VALUE_TYPE(R5, n2), std::pair<V<5>, V<2>>> && Same<Bare<decltype(R5::n2)>, json_::R5Impl::n2> && Same<Bare<decltype(std::declval<R5 &>()[R5::n2])>, std::pair<V<5>, V<2>>>, "pair 2 of 5 does not have its type");
static_assert(Same<json_::R5Impl::n3::ValueType, V<503>> && Same<JSON_VALUE_TYPE(R5, n3), V<503>> && Same<Bare<decltype(R5::n3)>, json_::R5Impl::n3> && Same<Bare<decltype(std::declval<R5 &>()[R5::n3])>, V<503>>, "pair 3 of 5 does not have its type");
static_assert(Same<json_::R5Impl::n4::ValueType, V<504>> && Same<JSON_VALUE_TYPE(R5, n4), V<504>> && Same<Bare<decltype(R5::n4)>, json_::R5Impl::n4> && Same<Bare<decltype(std::declval<R5 &>()[R5::n4])>, V<504>>, "pair 4 of 5 does not have its type");
static_assert(Same<json_::R5Impl::n5::ValueType, std::pair<V<5>, V<5>>> && Same<JSON_VALUE_TYPE(R5, n5), std::pair<V<5>, V<5>>> && Same<Bare<decltype(R5::n5)>, json_::R5Impl::n5> && Same<Bare<decltype(std::declval<R5 &>()[R5::n5])>, std::pair<V<5>, V<5>>>, "pair 5 of 5 does not have its type");
static_assert(Is<R5, json_::R5Impl::Base> && Is<json::Traits<R5>, json::Traits<json_::R5Impl::Base>> && Is<R5, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R6Impl::Base>::Type, std::tuple<json_::R6Impl::n1, json_::R6Impl::n2, json_::R6Impl::n3, json_::R6Impl::n4, json_::R6Impl::n5, json_::R6Impl::n6>>, "the cells of an object are not its 6 pairs in order");
static_assert(Same<json_::R6Impl::n1::ValueType, std::pair<V<6>, V<1>>> && Same<JSON_VALUE_TYPE(R6, n1), std::pair<V<6>, V<1>>> && Same<Bare<decltype(R6::n1)>, json_::R6Impl::n1> && Same<Bare<decltype(std::declval<R6 &>()[R6::n1])>, std::pair<V<6>, V<1>>>, "pair 1 of 6 does not have its type");
static_assert(Same<json_::R6Impl::n2::ValueType, V<602>> && Same<JSON_VALUE_TYPE(R6, n2), V<602>> && Same<Bare<decltype(R6::n2)>, json_::R6Impl::n2> && Same<Bare<decltype(std::declval<R6 &>()[R6::n2])>, V<602>>, "pair 2 of 6 does not have its type");
static_assert(Same<json_::R6Impl::n3::ValueType, std::pair<V<6>, V<3>>> && Same<JSON_VALUE_TYPE(R6, n3), std::pair<V<6>, V<3>>> && Same<Bare<decltype(R6::n3)>, json_::R6Impl::n3> && Same<Bare<decltype(std::declval<R6 &>()[R6::n3])>, std::pair<V<6>, V<3>>>, "pair 3 of 6 does not have its type");
static_assert(Same<json_::R6Impl::n4::ValueType, V<604>> && Same<JSON_VALUE_TYPE(R6, n4), V<604>> && Same<Bare<decltype(R6::n4)>, json_::R6Impl::n4> && Same<Bare<decltype(std::declval<R6 &>()[R6::n4])>, V<604>>, "pair 4 of 6 does not have its type");
static_assert(Same<json_::R6Impl::n5::ValueType, V<605>> && Same<JSON_VALUE_TYPE(R6, n5), V<605>> && Same<Bare<decltype(R6::n5)>, json_::R6Impl::n5> && Same<Bare<decltype(std::declval<R6 &>()[R6::n5])>, V<605>>, "pair 5 of 6 does not have its type");
static_assert(Same<json_::R6Impl::n6::ValueType, std::pair<V<6>, V<6>>> && Same<JSON_VALUE_TYPE(R6, n6), std::pair<V<6>, V<6>>> && Same<Bare<decltype(R6::n6)>, json_::R6Impl::n6> && Same<Bare<decltype(std::declval<R6 &>()[R6::n6])>, std::pair<V<6>, V<6>>>, "pair 6 of 6 does not have its type");
static_assert(Is<R6, json_::R6Impl::Base> && Is<json::Traits<R6>, json::Traits<json_::R6Impl::Base>> && Is<R6, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R7Impl::Base>::Type, std::tuple<json_::R7Impl::n1, json_::R7Impl::n2, json_::R7Impl::n3, json_::R7Impl::n4, json_::R7Impl::n5, json_::R7Impl::n6, json_::R7Impl::n7>>, "the cells of an object are not its 7 pairs in order");
static_assert(Same<json_::R7Impl::n1::ValueType, std::pair<V<7>, V<1>>> && Same<JSON_VALUE_TYPE(R7, n1), std::pair<V<7>, V<1>>> && Same<Bare<decltype(R7::n1)>, json_::R7Impl::n1> && Same<Bare<decltype(std::declval<R7 &>()[R7::n1])>, std::pair<V<7>, V<1>>>, "pair 1 of 7 does not have its type");
static_assert(Same<json_::R7Impl::n2::ValueType, V<702>> && Same<JSON_VALUE_TYPE(R7, n2), V<702>> && Same<Bare<decltype(R7::n2)>, json_::R7Impl::n2> && Same<Bare<decltype(std::declval<R7 &>()[R7::n2])>, V<702>>, "pair 2 of 7 does not have its type");
static_assert(Same<json_::R7Impl::n3::ValueType, std::pair<V<7>, V<3>>> && Same<JSON_VALUE_TYPE(R7, n3), std::pair<V<7>, V<3>>> && Same<Bare<decltype(R7::n3)>, json_::R7Impl::n3> && Same<Bare<decltype(std::declval<R7 &>()[R7::n3])>, std::pair<V<7>, V<3>>>, "pair 3 of 7 does not have its type");
static_assert(Same<json_::R7Impl::n4::ValueType, V<704>> && Same<JSON_VALUE_TYPE(R7, n4), V<704>> && Same<Bare<decltype(R7::n4)>, json_::R7Impl::n4> && Same<Bare<decltype(std::declval<R7 &>()[R7::n4])>, V<704>>, "pair 4 of 7 does not have its type");
static_assert(Same<json_::R7Impl::n5::ValueType, V<705>> && Same<JSON_VALUE_TYPE(R7, n5), V<705>> && Same<Bare<decltype(R7::n5)>, json_::R7Impl::n5> && Same<Bare<decltype(std::declval<R7 &>()[R7::n5])>, V<705>>, "pair 5 of 7 does not have its type");
static_assert(Same<json_::R7Impl::n6::ValueType, V<706>> && Same<JSON_VALUE_TYPE(R7, n6), V<706>> && Same<Bare<decltype(R7::n6)>, json_::R7Impl::n6> && Same<Bare<decltype(std::declval<R7 &>()[R7::n6])>, V<706>>, "pair 6 of 7 does not have its type");
static_assert(Same<json_::R7Impl::n7::ValueType, std::pair<V<7>, V<7>>> && Same<JSON_VALUE_TYPE(R7, n7), std::pair<V<7>, V<7>>> && Same<Bare<decltype(R7::n7)>, json_::R7Impl::n7> && Same<Bare<decltype(std::declval<R7 &>()[R7::n7])>, std::pair<V<7>, V<7>>>, "pair 7 of 7 does not have its type");
static_assert(Is<R7, json_::R7Impl::Base> && Is<json::Traits<R7>, json::Traits<json_::R7Impl::Base>> && Is<R7, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R8Impl::Base>::Type, std::tuple<json_::R8Impl::n1, json_::R8Impl::n2, json_::R8Impl::n3, json_::R8Impl::n4, json_::R8Impl::n5, json_::R8Impl::n6, json_::R8Impl::n7, json_::R8Impl::n8>>, "the cells of an object are not its 8 pairs in order");
static_assert(Same<json_::R8Impl::n1::ValueType, std::pair<V<8>, V<1>>> && Same<JSON_VALUE_TYPE(R8, n1), std::pair<V<8>, V<1>>> && Same<Bare<decltype(R8::n1)>, json_::R8Impl::n1> && Same<Bare<decltype(std::declval<R8 &>()[R8::n1])>, std::pair<V<8>, V<1>>>, "pair 1 of 8 does not have its type");
static_assert(Same<json_::R8Impl::n2::ValueType, V<802>> && Same<JSON_VALUE_TYPE(R8, n2), V<802>> && Same<Bare<decltype(R8::n2)>, json_::R8Impl::n2> && Same<Bare<decltype(std::declval<R8 &>()[R8::n2])>, V<802>>, "pair 2 of 8 does not have its type");
static_assert(Same<json_::R8Impl::n3::ValueType, V<803>> && Same<JSON_VALUE_TYPE(R8, n3), V<803>> && Same<Bare<decltype(R8::n3)>, json_::R8Impl::n3> && Same<Bare<decltype(std::declval<R8 &>()[R8::n3])>, V<803>>, "pair 3 of 8 does not have its type");
static_assert(Same<json_::R8Impl::n4::ValueType, std::pair<V<8>, V<4>>> && Same<JSON_VALUE_TYPE(R8, n4), std::pair<V<8>, V<4>>> && Same<Bare<decltype(R8::n4)>, json_::R8Impl::n4> && Same<Bare<decltype(std::declval<R8 &>()[R8::n4])>, std::pair<V<8>, V<4>>>, "pair 4 of 8 does not have its type");
static_assert(Same<json_::R8Impl::n5::ValueType, V<805>> && Same<JSON_VALUE_TYPE(R8, n5), V<805>> && Same<Bare<decltype(R8::n5)>, json_::R8Impl::n5> && Same<Bare<decltype(std::declval<R8 &>()[R8::n5])>, V<805>>, "pair 5 of 8 does not have its type");
static_assert(Same<json_::R8Impl::n6::ValueType, V<806>> && Same<JSON_VALUE_TYPE(R8, n6), V<806>> && Same<Bare<decltype(R8::n6)>, json_::R8Impl::n6> && Same<Bare<decltype(std::declval<R8 &>()[R8::n6])>, V<806>>, "pair 6 of 8 does not have its type");
static_assert(Same<json_::R8Impl::n7::ValueType, V<807>> && Same<JSON_VALUE_TYPE(R8, n7), V<807>> && Same<Bare<decltype(R8::n7)>, json_::R8Impl::n7> && Same<Bare<decltype(std::declval<R8 &>()[R8::n7])>, V<807>>, "pair 7 of 8 does not have its type");
static_assert(Same<json_::R8Impl::n8::ValueType, std::pair<V<8>, V<8>>> && Same<JSON_VALUE_TYPE(R8, n8), std::pair<V<8>, V<8>>> && Same<Bare<decltype(R8::n8)>, json_::R8Impl::n8> && Same<Bare<decltype(std::declval<R8 &>()[R8::n8])>, std::pair<V<8>, V<8>>>, "pair 8 of 8 does not have its type");
static_assert(Is<R8, json_::R8Impl::Base> && Is<json::Traits<R8>, json::Traits<json_::R8Impl::Base>> && Is<R8, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R9Impl::Base>::Type, std::tuple<json_::R9Impl::n1, json_::R9Impl::n2, json_::R9Impl::n3, json_::R9Impl::n4, json_::R9Impl::n5, json_::R9Impl::n6, json_::R9Impl::n7, json_::R9Impl::n8, json_::R9Impl::n9>>, "the cells of an object are not its 9 pairs in order");
static_assert(Same<json_::R9Impl::n1::ValueType, std::pair<V<9>, V<1>>> && Same<JSON_VALUE_TYPE(R9, n1), std::pair<V<9>, V<1>>> && Same<Bare<decltype(R9::n1)>, json_::R9Impl::n1> && Same<Bare<decltype(std::declval<R9 &>()[R9::n1])>, std::pair<V<9>, V<1>>>, "pair 1 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n2::ValueType, V<902>> && Same<JSON_VALUE_TYPE(R9, n2), V<902>> && Same<Bare<decltype(R9::n2)>, json_::R9Impl::n2> && Same<Bare<decltype(std::declval<R9 &>()[R9::n2])>, V<902>>, "pair 2 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n3::ValueType, V<903>> && Same<JSON_VALUE_TYPE(R9, n3), V<903>> && Same<Bare<decltype(R9::n3)>, json_::R9Impl::n3> && Same<Bare<decltype(std::declval<R9 &>()[R9::n3])>, V<903>>, "pair 3 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n4::ValueType, std::pair<V<9>, V<4>>> && Same<JSON_VALUE_TYPE(R9, n4), std::pair<V<9>, V<4>>> && Same<Bare<decltype(R9::n4)>, json_::R9Impl::n4> && Same<Bare<decltype(std::declval<R9 &>()[R9::n4])>, std::pair<V<9>, V<4>>>, "pair 4 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n5::ValueType, V<905>> && Same<JSON_VALUE_TYPE(R9, n5), V<905>> && Same<Bare<decltype(R9::n5)>, json_::R9Impl::n5> && Same<Bare<decltype(std::declval<R9 &>()[R9::n5])>, V<905>>, "pair 5 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n6::ValueType, V<906>> && Same<JSON_VALUE_TYPE(R9, n6), V<906>> && Same<Bare<decltype(R9::n6)>, json_::R9Impl::n6> && Same<Bare<decltype(std::declval<R9 &>()[R9::n6])>, V<906>>, "pair 6 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n7::ValueType, V<907>> && Same<JSON_VALUE_TYPE(R9, n7), V<907>> && Same<Bare<decltype(R9::n7)>, json_::R9Impl::n7> && Same<Bare<decltype(std::declval<R9 &>()[R9::n7])>, V<907>>, "pair 7 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n8::ValueType, V<908>> && Same<JSON_VALUE_TYPE(R9, n8), V<908>> && Same<Bare<decltype(R9::n8)>, json_::R9Impl::n8> && Same<Bare<decltype(std::declval<R9 &>()[R9::n8])>, V<908>>, "pair 8 of 9 does not have its type");
static_assert(Same<json_::R9Impl::n9::ValueType, std::pair<V<9>, V<9>>> && Same<JSON_VALUE_TYPE(R9, n9), std::pair<V<9>, V<9>>> && Same<Bare<decltype(R9::n9)>, json_::R9Impl::n9> && Same<Bare<decltype(std::declval<R9 &>()[R9::n9])>, std::pair<V<9>, V<9>>>, "pair 9 of 9 does not have its type");
static_assert(Is<R9, json_::R9Impl::Base> && Is<json::Traits<R9>, json::Traits<json_::R9Impl::Base>> && Is<R9, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R10Impl::Base>::Type, std::tuple<json_::R10Impl::n1, json_::R10Impl::n2, json_::R10Impl::n3, json_::R10Impl::n4, json_::R10Impl::n5, json_::R10Impl::n6, json_::R10Impl::n7, json_::R10Impl::n8, json_::R10Impl::n9, json_::R10Impl::n10>>, "the cells of an object are not its 10 pairs in order");
static_assert(Same<json_::R10Impl::n1::ValueType, std::pair<V<10>, V<1>>> && Same<JSON_VALUE_TYPE(R10, n1), std::pair<V<10>, V<1>>> && Same<Bare<decltype(R10::n1)>, json_::R10Impl::n1> && Same<Bare<decltype(std::declval<R10 &>()[R10::n1])>, std::pair<V<10>, V<1>>>, "pair 1 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n2::ValueType, V<1002>> && Same<JSON_VALUE_TYPE(R10, n2), V<1002>> && Same<Bare<decltype(R10::n2)>, json_::R10Impl::n2> && Same<Bare<decltype(std::declval<R10 &>()[R10::n2])>, V<1002>>, "pair 2 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n3::ValueType, V<1003>> && Same<JSON_VALUE_TYPE(R10, n3), V<1003>> && Same<Bare<decltype(R10::n3)>, json_::R10Impl::n3> && Same<Bare<decltype(std::declval<R10 &>()[R10::n3])>, V<1003>>, "pair 3 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n4::ValueType, V<1004>> && Same<JSON_VALUE_TYPE(R10, n4), V<1004>> && Same<Bare<decltype(R10::n4)>, json_::R10Impl::n4> && Same<Bare<decltype(std::declval<R10 &>()[R10::n4])>, V<1004>>, "pair 4 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n5::ValueType, std::pair<V<10>, V<5>>> && Same<JSON_VALUE_TYPE(R10, n5), std::pair<V<10>, V<5>>> && Same<Bare<decltype(R10::n5)>, json_::R10Impl::n5> && Same<Bare<decltype(std::declval<R10 &>()[R10::n5])>, std::pair<V<10>, V<5>>>, "pair 5 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n6::ValueType, V<1006>> && Same<JSON_VALUE_TYPE(R10, n6), V<1006>> && Same<Bare<decltype(R10::n6)>, json_::R10Impl::n6> && Same<Bare<decltype(std::declval<R10 &>()[R10::n6])>, V<1006>>, "pair 6 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n7::ValueType, V<1007>> && Same<JSON_VALUE_TYPE(R10, n7), V<1007>> && Same<Bare<decltype(R10::n7)>, json_::R10Impl::n7> && Same<Bare<decltype(std::declval<R10 &>()[R10::n7])>, V<1007>>, "pair 7 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n8::ValueType, V<1008>> && Same<JSON_VALUE_TYPE(R10, n8), V<1008>> && Same<Bare<decltype(R10::n8)>, json_::R10Impl::n8> && Same<Bare<decltype(std::declval<R10 &>()[R10::n8])>, V<1008>>, "pair 8 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n9::ValueType, V<1009>> && Same<JSON_VALUE_TYPE(R10, n9), V<1009>> && Same<Bare<decltype(R10::n9)>, json_::R10Impl::n9> && Same<Bare<decltype(std::declval<R10 &>()[R10::n9])>, V<1009>>, "pair 9 of 10 does not have its type");
static_assert(Same<json_::R10Impl::n10::ValueType, std::pair<V<10>, V<10>>> && Same<JSON_VALUE_TYPE(R10, n10), std::pair<V<10>, V<10>>> && Same<Bare<decltype(R10::n10)>, json_::R10Impl::n10> && Same<Bare<decltype(std::declval<R10 &>()[R10::n10])>, std::pair<V<10>, V<10>>>, "pair 10 of 10 does not have its type");
static_assert(Is<R10, json_::R10Impl::Base> && Is<json::Traits<R10>, json::Traits<json_::R10Impl::Base>> && Is<R10, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R11Impl::Base>::Type, std::tuple<json_::R11Impl::n1, json_::R11Impl::n2, json_::R11Impl::n3, json_::R11Impl::n4, json_::R11Impl::n5, json_::R11Impl::n6, json_::R11Impl::n7, json_::R11Impl::n8, json_::R11Impl::n9, json_::R11Impl::n10, json_::R11Impl::n11>>, "the cells of an object are not its 11 pairs in order");
static_assert(Same<json_::R11Impl::n1::ValueType, std::pair<V<11>, V<1>>> && Same<JSON_VALUE_TYPE(R11, n1), std::pair<V<11>, V<1>>> && Same<Bare<decltype(R11::n1)>, json_::R11Impl::n1> && Same<Bare<decltype(std::declval<R11 &>()[R11::n1])>, std::pair<V<11>, V<1>>>, "pair 1 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n2::ValueType, V<1102>> && Same<JSON_VALUE_TYPE(R11, n2), V<1102>> && Same<Bare<decltype(R11::n2)>, json_::R11Impl::n2> && Same<Bare<decltype(std::declval<R11 &>()[R11::n2])>, V<1102>>, "pair 2 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n3::ValueType, V<1103>> && Same<JSON_VALUE_TYPE(R11, n3), V<1103>> && Same<Bare<decltype(R11::n3)>, json_::R11Impl::n3> && Same<Bare<decltype(std::declval<R11 &>()[R11::n3])>, V<1103>>, "pair 3 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n4::ValueType, V<1104>> && Same<JSON_VALUE_TYPE(R11, n4), V<1104>> && Same<Bare<decltype(R11::n4)>, json_::R11Impl::n4> && Same<Bare<decltype(std::declval<R11 &>()[R11::n4])>, V<1104>>, "pair 4 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n5::ValueType, std::pair<V<11>, V<5>>> && Same<JSON_VALUE_TYPE(R11, n5), std::pair<V<11>, V<5>>> && Same<Bare<decltype(R11::n5)>, json_::R11Impl::n5> && Same<Bare<decltype(std::declval<R11 &>()[R11::n5])>, std::pair<V<11>, V<5>>>, "pair 5 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n6::ValueType, V<1106>> && Same<JSON_VALUE_TYPE(R11, n6), V<1106>> && Same<Bare<decltype(R11::n6)>, json_::R11Impl::n6> && Same<Bare<decltype(std::declval<R11 &>()[R11::n6])>, V<1106>>, "pair 6 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n7::ValueType, V<1107>> && Same<JSON_VALUE_TYPE(R11, n7), V<1107>> && Same<Bare<decltype(R11::n7)>, json_::R11Impl::n7> && Same<Bare<decltype(std::declval<R11 &>()[R11::n7])>, V<1107>>, "pair 7 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n8::ValueType, V<1108>> && Same<JSON_VALUE_TYPE(R11, n8), V<1108>> && Same<Bare<decltype(R11::n8)>, json_::R11Impl::n8> && Same<Bare<decltype(std::declval<R11 &>()[R11::n8])>, V<1108>>, "pair 8 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n9::ValueType, V<1109>> && Same<JSON_VALUE_TYPE(R11, n9), V<1109>> && Same<Bare<decltype(R11::n9)>, json_::R11Impl::n9> && Same<Bare<decltype(std::declval<R11 &>()[R11::n9])>, V<1109>>, "pair 9 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n10::ValueType, V<1110>> && Same<JSON_VALUE_TYPE(R11, n10), V<1110>> && Same<Bare<decltype(R11::n10)>, json_::R11Impl::n10> && Same<Bare<decltype(std::declval<R11 &>()[R11::n10])>, V<1110>>, "pair 10 of 11 does not have its type");
static_assert(Same<json_::R11Impl::n11::ValueType, std::pair<V<11>, V<11>>> && Same<JSON_VALUE_TYPE(R11, n11), std::pair<V<11>, V<11>>> && Same<Bare<decltype(R11::n11)>, json_::R11Impl::n11> && Same<Bare<decltype(std::declval<R11 &>()[R11::n11])>, std::pair<V<11>, V<11>>>, "pair 11 of 11 does not have its type");
static_assert(Is<R11, json_::R11Impl::Base> && Is<json::Traits<R11>, json::Traits<json_::R11Impl::Base>> && Is<R11, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R12Impl::Base>::Type, std::tuple<json_::R12Impl::n1, json_::R12Impl::n2, json_::R12Impl::n3, json_::R12Impl::n4, json_::R12Impl::n5, json_::R12Impl::n6, json_::R12Impl::n7, json_::R12Impl::n8, json_::R12Impl::n9, json_::R12Impl::n10, json_::R12Impl::n11, json_::R12Impl::n12>>, "the cells of an object are not its 12 pairs in order");
static_assert(Same<json_::R12Impl::n1::ValueType, std::pair<V<12>, V<1>>> && Same<JSON_VALUE_TYPE(R12, n1), std::pair<V<12>, V<1>>> && Same<Bare<decltype(R12::n1)>, json_::R12Impl::n1> && Same<Bare<decltype(std::declval<R12 &>()[R12::n1])>, std::pair<V<12>, V<1>>>, "pair 1 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n2::ValueType, V<1202>> && Same<JSON_VALUE_TYPE(R12, n2), V<1202>> && Same<Bare<decltype(R12::n2)>, json_::R12Impl::n2> && Same<Bare<decltype(std::declval<R12 &>()[R12::n2])>, V<1202>>, "pair 2 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n3::ValueType, V<1203>> && Same<JSON_VALUE_TYPE(R12, n3), V<1203>> && Same<Bare<decltype(R12::n3)>, json_::R12Impl::n3> && Same<Bare<decltype(std::declval<R12 &>()[R12::n3])>, V<1203>>, "pair 3 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n4::ValueType, V<1204>> && Same<JSON_VALUE_TYPE(R12, n4), V<1204>> && Same<Bare<decltype(R12::n4)>, json_::R12Impl::n4> && Same<Bare<decltype(std::declval<R12 &>()[R12::n4])>, V<1204>>, "pair 4 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n5::ValueType, V<1205>> && Same<JSON_VALUE_TYPE(R12, n5), V<1205>> && Same<Bare<decltype(R12::n5)>, json_::R12Impl::n5> && Same<Bare<decltype(std::declval<R12 &>()[R12::n5])>, V<1205>>, "pair 5 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n6::ValueType, std::pair<V<12>, V<6>>> && Same<JSON_VALUE_TYPE(R12, n6), std::pair<V<12>, V<6>>> && Same<Bare<decltype(R12::n6)>, json_::R12Impl::n6> && Same<Bare<decltype(std::declval<R12 &>()[R12::n6])>, std::pair<V<12>, V<6>>>, "pair 6 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n7::ValueType, V<1207>> && Same<JSON_VALUE_TYPE(R12, n7), V<1207>> && Same<Bare<decltype(R12::n7)>, json_::R12Impl::n7> && Same<Bare<decltype(std::declval<R12 &>()[R12::n7])>, V<1207>>, "pair 7 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n8::ValueType, V<1208>> && Same<JSON_VALUE_TYPE(R12, n8), V<1208>> && Same<Bare<decltype(R12::n8)>, json_::R12Impl::n8> && Same<Bare<decltype(std::declval<R12 &>()[R12::n8])>, V<1208>>, "pair 8 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n9::ValueType, V<1209>> && Same<JSON_VALUE_TYPE(R12, n9), V<1209>> && Same<Bare<decltype(R12::n9)>, json_::R12Impl::n9> && Same<Bare<decltype(std::declval<R12 &>()[R12::n9])>, V<1209>>, "pair 9 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n10::ValueType, V<1210>> && Same<JSON_VALUE_TYPE(R12, n10), V<1210>> && Same<Bare<decltype(R12::n10)>, json_::R12Impl::n10> && Same<Bare<decltype(std::declval<R12 &>()[R12::n10])>, V<1210>>, "pair 10 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n11::ValueType, V<1211>> && Same<JSON_VALUE_TYPE(R12, n11), V<1211>> && Same<Bare<decltype(R12::n11)>, json_::R12Impl::n11> && Same<Bare<decltype(std::declval<R12 &>()[R12::n11])>, V<1211>>, "pair 11 of 12 does not have its type");
static_assert(Same<json_::R12Impl::n12::ValueType, std::pair<V<12>, V<12>>> && Same<JSON_VALUE_TYPE(R12, n12), std::pair<V<12>, V<12>>> && Same<Bare<decltype(R12::n12)>, json_::R12Impl::n12> && Same<Bare<decltype(std::declval<R12 &>()[R12::n12])>, std::pair<V<12>, V<12>>>, "pair 12 of 12 does not have its type");
static_assert(Is<R12, json_::R12Impl::Base> && Is<json::Traits<R12>, json::Traits<json_::R12Impl::Base>> && Is<R12, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R13Impl::Base>::Type, std::tuple<json_::R13Impl::n1, json_::R13Impl::n2, json_::R13Impl::n3, json_::R13Impl::n4, json_::R13Impl::n5, json_::R13Impl::n6, json_::R13Impl::n7, json_::R13Impl::n8, json_::R13Impl::n9, json_::R13Impl::n10, json_::R13Impl::n11, json_::R13Impl::n12, json_::R13Impl::n13>>, "the cells of an object are not its 13 pairs in order");
static_assert(Same<json_::R13Impl::n1::ValueType, std::pair<V<13>, V<1>>> && Same<JSON_VALUE_TYPE(R13, n1), std::pair<V<13>, V<1>>> && Same<Bare<decltype(R13::n1)>, json_::R13Impl::n1> && Same<Bare<decltype(std::declval<R13 &>()[R13::n1])>, std::pair<V<13>, V<1>>>, "pair 1 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n2::ValueType, V<1302>> && Same<JSON_VALUE_TYPE(R13, n2), V<1302>> && Same<Bare<decltype(R13::n2)>, json_::R13Impl::n2> && Same<Bare<decltype(std::declval<R13 &>()[R13::n2])>, V<1302>>, "pair 2 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n3::ValueType, V<1303>> && Same<JSON_VALUE_TYPE(R13, n3), V<1303>> && Same<Bare<decltype(R13::n3)>, json_::R13Impl::n3> && Same<Bare<decltype(std::declval<R13 &>()[R13::n3])>, V<1303>>, "pair 3 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n4::ValueType, V<1304>> && Same<JSON_VALUE_TYPE(R13, n4), V<1304>> && Same<Bare<decltype(R13::n4)>, json_::R13Impl::n4> && Same<Bare<decltype(std::declval<R13 &>()[R13::n4])>, V<1304>>, "pair 4 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n5::ValueType, V<1305>> && Same<JSON_VALUE_TYPE(R13, n5), V<1305>> && Same<Bare<decltype(R13::n5)>, json_::R13Impl::n5> && Same<Bare<decltype(std::declval<R13 &>()[R13::n5])>, V<1305>>, "pair 5 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n6::ValueType, std::pair<V<13>, V<6>>> && Same<JSON_VALUE_TYPE(R13, n6), std::pair<V<13>, V<6>>> && Same<Bare<decltype(R13::n6)>, json_::R13Impl::n6> && Same<Bare<decltype(std::declval<R13 &>()[R13::n6])>, std::pair<V<13>, V<6>>>, "pair 6 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n7::ValueType, V<1307>> && Same<JSON_VALUE_TYPE(R13, n7), V<1307>> && Same<Bare<decltype(R13::n7)>, json_::R13Impl::n7> && Same<Bare<decltype(std::declval<R13 &>()[R13::n7])>, V<1307>>, "pair 7 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n8::ValueType, V<1308>> && Same<JSON_VALUE_TYPE(R13, n8), V<1308>> && Same<Bare<decltype(R13::n8)>, json_::R13Impl::n8> && Same<Bare<decltype(std::declval<R13 &>()[R13::n8])>, V<1308>>, "pair 8 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n9::ValueType, V<1309>> && Same<JSON_VALUE_TYPE(R13, n9), V<1309>> && Same<Bare<decltype(R13::n9)>, json_::R13Impl::n9> && Same<Bare<decltype(std::declval<R13 &>()[R13::n9])>, V<1309>>, "pair 9 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n10::ValueType, V<1310>> && Same<JSON_VALUE_TYPE(R13, n10), V<1310>> && Same<Bare<decltype(R13::n10)>, json_::R13Impl::n10> && Same<Bare<decltype(std::declval<R13 &>()[R13::n10])>, V<1310>>, "pair 10 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n11::ValueType, V<1311>> && Same<JSON_VALUE_TYPE(R13, n11), V<1311>> && Same<Bare<decltype(R13::n11)>, json_::R13Impl::n11> && Same<Bare<decltype(std::declval<R13 &>()[R13::n11])>, V<1311>>, "pair 11 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n12::ValueType, V<1312>> && Same<JSON_VALUE_TYPE(R13, n12), V<1312>> && Same<Bare<decltype(R13::n12)>, json_::R13Impl::n12> && Same<Bare<decltype(std::declval<R13 &>()[R13::n12])>, V<1312>>, "pair 12 of 13 does not have its type");
static_assert(Same<json_::R13Impl::n13::ValueType, std::pair<V<13>, V<13>>> && Same<JSON_VALUE_TYPE(R13, n13), std::pair<V<13>, V<13>>> && Same<Bare<decltype(R13::n13)>, json_::R13Impl::n13> && Same<Bare<decltype(std::declval<R13 &>()[R13::n13])>, std::pair<V<13>, V<13>>>, "pair 13 of 13 does not have its type");
static_assert(Is<R13, json_::R13Impl::Base> && Is<json::Traits<R13>, json::Traits<json_::R13Impl::Base>> && Is<R13, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R14Impl::Base>::Type, std::tuple<json_::R14Impl::n1, json_::R14Impl::n2, json_::R14Impl::n3, json_::R14Impl::n4, json_::R14Impl::n5, json_::R14Impl::n6, json_::R14Impl::n7, json_::R14Impl::n8, json_::R14Impl::n9, json_::R14Impl::n10, json_::R14Impl::n11, json_::R14Impl::n12, json_::R14Impl::n13, json_::R14Impl::n14>>, "the cells of an object are not its 14 pairs in order");
static_assert(Same<json_::R14Impl::n1::ValueType, std::pair<V<14>, V<1>>> && Same<JSON_VALUE_TYPE(R14, n1), std::pair<V<14>, V<1>>> && Same<Bare<decltype(R14::n1)>, json_::R14Impl::n1> && Same<Bare<decltype(std::declval<R14 &>()[R14::n1])>, std::pair<V<14>, V<1>>>, "pair 1 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n2::ValueType, V<1402>> && Same<JSON_VALUE_TYPE(R14, n2), V<1402>> && Same<Bare<decltype(R14::n2)>, json_::R14Impl::n2> && Same<Bare<decltype(std::declval<R14 &>()[R14::n2])>, V<1402>>, "pair 2 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n3::ValueType, V<1403>> && Same<JSON_VALUE_TYPE(R14, n3), V<1403>> && Same<Bare<decltype(R14::n3)>, json_::R14Impl::n3> && Same<Bare<decltype(std::declval<R14 &>()[R14::n3])>, V<1403>>, "pair 3 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n4::ValueType, V<1404>> && Same<JSON_VALUE_TYPE(R14, n4), V<1404>> && Same<Bare<decltype(R14::n4)>, json_::R14Impl::n4> && Same<Bare<decltype(std::declval<R14 &>()[R14::n4])>, V<1404>>, "pair 4 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n5::ValueType, V<1405>> && Same<JSON_VALUE_TYPE(R14, n5), V<1405>> && Same<Bare<decltype(R14::n5)>, json_::R14Impl::n5> && Same<Bare<decltype(std::declval<R14 &>()[R14::n5])>, V<1405>>, "pair 5 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n6::ValueType, V<1406>> && Same<JSON_VALUE_TYPE(R14, n6), V<1406>> && Same<Bare<decltype(R14::n6)>, json_::R14Impl::n6> && Same<Bare<decltype(std::declval<R14 &>()[R14::n6])>, V<1406>>, "pair 6 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n7::ValueType, std::pair<V<14>, V<7>>> && Same<JSON_VALUE_TYPE(R14, n7), std::pair<V<14>, V<7>>> && Same<Bare<decltype(R14::n7)>, json_::R14Impl::n7> && Same<Bare<decltype(std::declval<R14 &>()[R14::n7])>, std::pair<V<14>, V<7>>>, "pair 7 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n8::ValueType, V<1408>> && Same<JSON_VALUE_TYPE(R14, n8), V<1408>> && Same<Bare<decltype(R14::n8)>, json_::R14Impl::n8> && Same<Bare<decltype(std::declval<R14 &>()[R14::n8])>, V<1408>>, "pair 8 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n9::ValueType, V<1409>> && Same<JSON_VALUE_TYPE(R14, n9), V<1409>> && Same<Bare<decltype(R14::n9)>, json_::R14Impl::n9> && Same<Bare<decltype(std::declval<R14 &>()[R14::n9])>, V<1409>>, "pair 9 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n10::ValueType, V<1410>> && Same<JSON_VALUE_TYPE(R14, n10), V<1410>> && Same<Bare<decltype(R14::n10)>, json_::R14Impl::n10> && Same<Bare<decltype(std::declval<R14 &>()[R14::n10])>, V<1410>>, "pair 10 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n11::ValueType, V<1411>> && Same<JSON_VALUE_TYPE(R14, n11), V<1411>> && Same<Bare<decltype(R14::n11)>, json_::R14Impl::n11> && Same<Bare<decltype(std::declval<R14 &>()[R14::n11])>, V<1411>>, "pair 11 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n12::ValueType, V<1412>> && Same<JSON_VALUE_TYPE(R14, n12), V<1412>> && Same<Bare<decltype(R14::n12)>, json_::R14Impl::n12> && Same<Bare<decltype(std::declval<R14 &>()[R14::n12])>, V<1412>>, "pair 12 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n13::ValueType, V<1413>> && Same<JSON_VALUE_TYPE(R14, n13), V<1413>> && Same<Bare<decltype(R14::n13)>, json_::R14Impl::n13> && Same<Bare<decltype(std::declval<R14 &>()[R14::n13])>, V<1413>>, "pair 13 of 14 does not have its type");
static_assert(Same<json_::R14Impl::n14::ValueType, std::pair<V<14>, V<14>>> && Same<JSON_VALUE_TYPE(R14, n14), std::pair<V<14>, V<14>>> && Same<Bare<decltype(R14::n14)>, json_::R14Impl::n14> && Same<Bare<decltype(std::declval<R14 &>()[R14::n14])>, std::pair<V<14>, V<14>>>, "pair 14 of 14 does not have its type");
static_assert(Is<R14, json_::R14Impl::Base> && Is<json::Traits<R14>, json::Traits<json_::R14Impl::Base>> && Is<R14, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R15Impl::Base>::Type, std::tuple<json_::R15Impl::n1, json_::R15Impl::n2, json_::R15Impl::n3, json_::R15Impl::n4, json_::R15Impl::n5, json_::R15Impl::n6, json_::R15Impl::n7, json_::R15Impl::n8, json_::R15Impl::n9, json_::R15Impl::n10, json_::R15Impl::n11, json_::R15Impl::n12, json_::R15Impl::n13, json_::R15Impl::n14, json_::R15Impl::n15>>, "the cells of an object are not its 15 pairs in order");
static_assert(Same<json_::R15Impl::n1::ValueType, std::pair<V<15>, V<1>>> && Same<JSON_VALUE_TYPE(R15, n1), std::pair<V<15>, V<1>>> && Same<Bare<decltype(R15::n1)>, json_::R15Impl::n1> && Same<Bare<decltype(std::declval<R15 &>()[R15::n1])>, std::pair<V<15>, V<1>>>, "pair 1 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n2::ValueType, V<1502>> && Same<JSON_VALUE_TYPE(R15, n2), V<1502>> && Same<Bare<decltype(R15::n2)>, json_::R15Impl::n2> && Same<Bare<decltype(std::declval<R15 &>()[R15::n2])>, V<1502>>, "pair 2 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n3::ValueType, V<1503>> && Same<JSON_VALUE_TYPE(R15, n3), V<1503>> && Same<Bare<decltype(R15::n3)>, json_::R15Impl::n3> && Same<Bare<decltype(std::declval<R15 &>()[R15::n3])>, V<1503>>, "pair 3 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n4::ValueType, V<1504>> && Same<JSON_VALUE_TYPE(R15, n4), V<1504>> && Same<Bare<decltype(R15::n4)>, json_::R15Impl::n4> && Same<Bare<decltype(std::declval<R15 &>()[R15::n4])>, V<1504>>, "pair 4 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n5::ValueType, V<1505>> && Same<JSON_VALUE_TYPE(R15, n5), V<1505>> && Same<Bare<decltype(R15::n5)>, json_::R15Impl::n5> && Same<Bare<decltype(std::declval<R15 &>()[R15::n5])>, V<1505>>, "pair 5 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n6::ValueType, V<1506>> && Same<JSON_VALUE_TYPE(R15, n6), V<1506>> && Same<Bare<decltype(R15::n6)>, json_::R15Impl::n6> && Same<Bare<decltype(std::declval<R15 &>()[R15::n6])>, V<1506>>, "pair 6 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n7::ValueType, std::pair<V<15>, V<7>>> && Same<JSON_VALUE_TYPE(R15, n7), std::pair<V<15>, V<7>>> && Same<Bare<decltype(R15::n7)>, json_::R15Impl::n7> && Same<Bare<decltype(std::declval<R15 &>()[R15::n7])>, std::pair<V<15>, V<7>>>, "pair 7 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n8::ValueType, V<1508>> && Same<JSON_VALUE_TYPE(R15, n8), V<1508>> && Same<Bare<decltype(R15::n8)>, json_::R15Impl::n8> && Same<Bare<decltype(std::declval<R15 &>()[R15::n8])>, V<1508>>, "pair 8 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n9::ValueType, V<1509>> && Same<JSON_VALUE_TYPE(R15, n9), V<1509>> && Same<Bare<decltype(R15::n9)>, json_::R15Impl::n9> && Same<Bare<decltype(std::declval<R15 &>()[R15::n9])>, V<1509>>, "pair 9 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n10::ValueType, V<1510>> && Same<JSON_VALUE_TYPE(R15, n10), V<1510>> && Same<Bare<decltype(R15::n10)>, json_::R15Impl::n10> && Same<Bare<decltype(std::declval<R15 &>()[R15::n10])>, V<1510>>, "pair 10 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n11::ValueType, V<1511>> && Same<JSON_VALUE_TYPE(R15, n11), V<1511>> && Same<Bare<decltype(R15::n11)>, json_::R15Impl::n11> && Same<Bare<decltype(std::declval<R15 &>()[R15::n11])>, V<1511>>, "pair 11 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n12::ValueType, V<1512>> && Same<JSON_VALUE_TYPE(R15, n12), V<1512>> && Same<Bare<decltype(R15::n12)>, json_::R15Impl::n12> && Same<Bare<decltype(std::declval<R15 &>()[R15::n12])>, V<1512>>, "pair 12 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n13::ValueType, V<1513>> && Same<JSON_VALUE_TYPE(R15, n13), V<1513>> && Same<Bare<decltype(R15::n13)>, json_::R15Impl::n13> && Same<Bare<decltype(std::declval<R15 &>()[R15::n13])>, V<1513>>, "pair 13 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n14::ValueType, V<1514>> && Same<JSON_VALUE_TYPE(R15, n14), V<1514>> && Same<Bare<decltype(R15::n14)>, json_::R15Impl::n14> && Same<Bare<decltype(std::declval<R15 &>()[R15::n14])>, V<1514>>, "pair 14 of 15 does not have its type");
static_assert(Same<json_::R15Impl::n15::ValueType, std::pair<V<15>, V<15>>> && Same<JSON_VALUE_TYPE(R15, n15), std::pair<V<15>, V<15>>> && Same<Bare<decltype(R15::n15)>, json_::R15Impl::n15> && Same<Bare<decltype(std::declval<R15 &>()[R15::n15])>, std::pair<V<15>, V<15>>>, "pair 15 of 15 does not have its type");
static_assert(Is<R15, json_::R15Impl::Base> && Is<json::Traits<R15>, json::Traits<json_::R15Impl::Base>> && Is<R15, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R16Impl::Base>::Type, std::tuple<json_::R16Impl::n1, json_::R16Impl::n2, json_::R16Impl::n3, json_::R16Impl::n4, json_::R16Impl::n5, json_::R16Impl::n6, json_::R16Impl::n7, json_::R16Impl::n8, json_::R16Impl::n9, json_::R16Impl::n10, json_::R16Impl::n11, json_::R16Impl::n12, json_::R16Impl::n13, json_::R16Impl::n14, json_::R16Impl::n15, json_::R16Impl::n16>>, "the cells of an object are not its 16 pairs in order");
static_assert(Same<json_::R16Impl::n1::ValueType, std::pair<V<16>, V<1>>> && Same<JSON_VALUE_TYPE(R16, n1), std::pair<V<16>, V<1>>> && Same<Bare<decltype(R16::n1)>, json_::R16Impl::n1> && Same<Bare<decltype(std::declval<R16 &>()[R16::n1])>, std::pair<V<16>, V<1>>>, "pair 1 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n2::ValueType, V<1602>> && Same<JSON_VALUE_TYPE(R16, n2), V<1602>> && Same<Bare<decltype(R16::n2)>, json_::R16Impl::n2> && Same<Bare<decltype(std::declval<R16 &>()[R16::n2])>, V<1602>>, "pair 2 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n3::ValueType, V<1603>> && Same<JSON_VALUE_TYPE(R16, n3), V<1603>> && Same<Bare<decltype(R16::n3)>, json_::R16Impl::n3> && Same<Bare<decltype(std::declval<R16 &>()[R16::n3])>, V<1603>>, "pair 3 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n4::ValueType, V<1604>> && Same<JSON_VALUE_TYPE(R16, n4), V<1604>> && Same<Bare<decltype(R16::n4)>, json_::R16Impl::n4> && Same<Bare<decltype(std::declval<R16 &>()[R16::n4])>, V<1604>>, "pair 4 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n5::ValueType, V<1605>> && Same<JSON_VALUE_TYPE(R16, n5), V<1605>> && Same<Bare<decltype(R16::n5)>, json_::R16Impl::n5> && Same<Bare<decltype(std::declval<R16 &>()[R16::n5])>, V<1605>>, "pair 5 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n6::ValueType, V<1606>> && Same<JSON_VALUE_TYPE(R16, n6), V<1606>> && Same<Bare<decltype(R16::n6)>, json_::R16Impl::n6> && Same<Bare<decltype(std::declval<R16 &>()[R16::n6])>, V<1606>>, "pair 6 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n7::ValueType, V<1607>> && Same<JSON_VALUE_TYPE(R16, n7), V<1607>> && Same<Bare<decltype(R16::n7)>, json_::R16Impl::n7> && Same<Bare<decltype(std::declval<R16 &>()[R16::n7])>, V<1607>>, "pair 7 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n8::ValueType, std::pair<V<16>, V<8>>> && Same<JSON_VALUE_TYPE(R16, n8), std::pair<V<16>, V<8>>> && Same<Bare<decltype(R16::n8)>, json_::R16Impl::n8> && Same<Bare<decltype(std::declval<R16 &>()[R16::n8])>, std::pair<V<16>, V<8>>>, "pair 8 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n9::ValueType, V<1609>> && Same<JSON_VALUE_TYPE(R16, n9), V<1609>> && Same<Bare<decltype(R16::n9)>, json_::R16Impl::n9> && Same<Bare<decltype(std::declval<R16 &>()[R16::n9])>, V<1609>>, "pair 9 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n10::ValueType, V<1610>> && Same<JSON_VALUE_TYPE(R16, n10), V<1610>> && Same<Bare<decltype(R16::n10)>, json_::R16Impl::n10> && Same<Bare<decltype(std::declval<R16 &>()[R16::n10])>, V<1610>>, "pair 10 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n11::ValueType, V<1611>> && Same<JSON_VALUE_TYPE(R16, n11), V<1611>> && Same<Bare<decltype(R16::n11)>, json_::R16Impl::n11> && Same<Bare<decltype(std::declval<R16 &>()[R16::n11])>, V<1611>>, "pair 11 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n12::ValueType, V<1612>> && Same<JSON_VALUE_TYPE(R16, n12), V<1612>> && Same<Bare<decltype(R16::n12)>, json_::R16Impl::n12> && Same<Bare<decltype(std::declval<R16 &>()[R16::n12])>, V<1612>>, "pair 12 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n13::ValueType, V<1613>> && Same<JSON_VALUE_TYPE(R16, n13), V<1613>> && Same<Bare<decltype(R16::n13)>, json_::R16Impl::n13> && Same<Bare<decltype(std::declval<R16 &>()[R16::n13])>, V<1613>>, "pair 13 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n14::ValueType, V<1614>> && Same<JSON_VALUE_TYPE(R16, n14), V<1614>> && Same<Bare<decltype(R16::n14)>, json_::R16Impl::n14> && Same<Bare<decltype(std::declval<R16 &>()[R16::n14])>, V<1614>>, "pair 14 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n15::ValueType, V<1615>> && Same<JSON_VALUE_TYPE(R16, n15), V<1615>> && Same<Bare<decltype(R16::n15)>, json_::R16Impl::n15> && Same<Bare<decltype(std::declval<R16 &>()[R16::n15])>, V<1615>>, "pair 15 of 16 does not have its type");
static_assert(Same<json_::R16Impl::n16::ValueType, std::pair<V<16>, V<16>>> && Same<JSON_VALUE_TYPE(R16, n16), std::pair<V<16>, V<16>>> && Same<Bare<decltype(R16::n16)>, json_::R16Impl::n16> && Same<Bare<decltype(std::declval<R16 &>()[R16::n16])>, std::pair<V<16>, V<16>>>, "pair 16 of 16 does not have its type");
static_assert(Is<R16, json_::R16Impl::Base> && Is<json::Traits<R16>, json::Traits<json_::R16Impl::Base>> && Is<R16, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R17Impl::Base>::Type, std::tuple<json_::R17Impl::n1, json_::R17Impl::n2, json_::R17Impl::n3, json_::R17Impl::n4, json_::R17Impl::n5, json_::R17Impl::n6, json_::R17Impl::n7, json_::R17Impl::n8, json_::R17Impl::n9, json_::R17Impl::n10, json_::R17Impl::n11, json_::R17Impl::n12, json_::R17Impl::n13, json_::R17Impl::n14, json_::R17Impl::n15, json_::R17Impl::n16, json_::R17Impl::n17>>, "the cells of an object are not its 17 pairs in order");
static_assert(Same<json_::R17Impl::n1::ValueType, std::pair<V<17>, V<1>>> && Same<JSON_VALUE_TYPE(R17, n1), std::pair<V<17>, V<1>>> && Same<Bare<decltype(R17::n1)>, json_::R17Impl::n1> && Same<Bare<decltype(std::declval<R17 &>()[R17::n1])>, std::pair<V<17>, V<1>>>, "pair 1 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n2::ValueType, V<1702>> && Same<JSON_VALUE_TYPE(R17, n2), V<1702>> && Same<Bare<decltype(R17::n2)>, json_::R17Impl::n2> && Same<Bare<decltype(std::declval<R17 &>()[R17::n2])>, V<1702>>, "pair 2 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n3::ValueType, V<1703>> && Same<JSON_VALUE_TYPE(R17, n3), V<1703>> && Same<Bare<decltype(R17::n3)>, json_::R17Impl::n3> && Same<Bare<decltype(std::declval<R17 &>()[R17::n3])>, V<1703>>, "pair 3 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n4::ValueType, V<1704>> && Same<JSON_VALUE_TYPE(R17, n4), V<1704>> && Same<Bare<decltype(R17::n4)>, json_::R17Impl::n4> && Same<Bare<decltype(std::declval<R17 &>()[R17::n4])>, V<1704>>, "pair 4 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n5::ValueType, V<1705>> && Same<JSON_VALUE_TYPE(R17, n5), V<1705>> && Same<Bare<decltype(R17::n5)>, json_::R17Impl::n5> && Same<Bare<decltype(std::declval<R17 &>()[R17::n5])>, V<1705>>, "pair 5 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n6::ValueType, V<1706>> && Same<JSON_VALUE_TYPE(R17, n6), V<1706>> && Same<Bare<decltype(R17::n6)>, json_::R17Impl::n6> && Same<Bare<decltype(std::declval<R17 &>()[R17::n6])>, V<1706>>, "pair 6 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n7::ValueType, V<1707>> && Same<JSON_VALUE_TYPE(R17, n7), V<1707>> && Same<Bare<decltype(R17::n7)>, json_::R17Impl::n7> && Same<Bare<decltype(std::declval<R17 &>()[R17::n7])>, V<1707>>, "pair 7 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n8::ValueType, std::pair<V<17>, V<8>>> && Same<JSON_VALUE_TYPE(R17, n8), std::pair<V<17>, V<8>>> && Same<Bare<decltype(R17::n8)>, json_::R17Impl::n8> && Same<Bare<decltype(std::declval<R17 &>()[R17::n8])>, std::pair<V<17>, V<8>>>, "pair 8 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n9::ValueType, V<1709>> && Same<JSON_VALUE_TYPE(R17, n9), V<1709>> && Same<Bare<decltype(R17::n9)>, json_::R17Impl::n9> && Same<Bare<decltype(std::declval<R17 &>()[R17::n9])>, V<1709>>, "pair 9 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n10::ValueType, V<1710>> && Same<JSON_VALUE_TYPE(R17, n10), V<1710>> && Same<Bare<decltype(R17::n10)>, json_::R17Impl::n10> && Same<Bare<decltype(std::declval<R17 &>()[R17::n10])>, V<1710>>, "pair 10 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n11::ValueType, V<1711>> && Same<JSON_VALUE_TYPE(R17, n11), V<1711>> && Same<Bare<decltype(R17::n11)>, json_::R17Impl::n11> && Same<Bare<decltype(std::declval<R17 &>()[R17::n11])>, V<1711>>, "pair 11 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n12::ValueType, V<1712>> && Same<JSON_VALUE_TYPE(R17, n12), V<1712>> && Same<Bare<decltype(R17::n12)>, json_::R17Impl::n12> && Same<Bare<decltype(std::declval<R17 &>()[R17::n12])>, V<1712>>, "pair 12 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n13::ValueType, V<1713>> && Same<JSON_VALUE_TYPE(R17, n13), V<1713>> && Same<Bare<decltype(R17::n13)>, json_::R17Impl::n13> && Same<Bare<decltype(std::declval<R17 &>()[R17::n13])>, V<1713>>, "pair 13 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n14::ValueType, V<1714>> && Same<JSON_VALUE_TYPE(R17, n14), V<1714>> && Same<Bare<decltype(R17::n14)>, json_::R17Impl::n14> && Same<Bare<decltype(std::declval<R17 &>()[R17::n14])>, V<1714>>, "pair 14 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n15::ValueType, V<1715>> && Same<JSON_VALUE_TYPE(R17, n15), V<1715>> && Same<Bare<decltype(R17::n15)>, json_::R17Impl::n15> && Same<Bare<decltype(std::declval<R17 &>()[R17::n15])>, V<1715>>, "pair 15 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n16::ValueType, V<1716>> && Same<JSON_VALUE_TYPE(R17, n16), V<1716>> && Same<Bare<decltype(R17::n16)>, json_::R17Impl::n16> && Same<Bare<decltype(std::declval<R17 &>()[R17::n16])>, V<1716>>, "pair 16 of 17 does not have its type");
static_assert(Same<json_::R17Impl::n17::ValueType, std::pair<V<17>, V<17>>> && Same<JSON_VALUE_TYPE(R17, n17), std::pair<V<17>, V<17>>> && Same<Bare<decltype(R17::n17)>, json_::R17Impl::n17> && Same<Bare<decltype(std::declval<R17 &>()[R17::n17])>, std::pair<V<17>, V<17>>>, "pair 17 of 17 does not have its type");
static_assert(Is<R17, json_::R17Impl::Base> && Is<json::Traits<R17>, json::Traits<json_::R17Impl::Base>> && Is<R17, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R18Impl::Base>::Type, std::tuple<json_::R18Impl::n1, json_::R18Impl::n2, json_::R18Impl::n3, json_::R18Impl::n4, json_::R18Impl::n5, json_::R18Impl::n6, json_::R18Impl::n7, json_::R18Impl::n8, json_::R18Impl::n9, json_::R18Impl::n10, json_::R18Impl::n11, json_::R18Impl::n12, json_::R18Impl::n13, json_::R18Impl::n14, json_::R18Impl::n15, json_::R18Impl::n16, json_::R18Impl::n17, json_::R18Impl::n18>>, "the cells of an object are not its 18 pairs in order");
static_assert(Same<json_::R18Impl::n1::ValueType, std::pair<V<18>, V<1>>> && Same<JSON_VALUE_TYPE(R18, n1), std::pair<V<18>, V<1>>> && Same<Bare<decltype(R18::n1)>, json_::R18Impl::n1> && Same<Bare<decltype(std::declval<R18 &>()[R18::n1])>, std::pair<V<18>, V<1>>>, "pair 1 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n2::ValueType, V<1802>> && Same<JSON_VALUE_TYPE(R18, n2), V<1802>> && Same<Bare<decltype(R18::n2)>, json_::R18Impl::n2> && Same<Bare<decltype(std::declval<R18 &>()[R18::n2])>, V<1802>>, "pair 2 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n3::ValueType, V<1803>> && Same<JSON_VALUE_TYPE(R18, n3), V<1803>> && Same<Bare<decltype(R18::n3)>, json_::R18Impl::n3> && Same<Bare<decltype(std::declval<R18 &>()[R18::n3])>, V<1803>>, "pair 3 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n4::ValueType, V<1804>> && Same<JSON_VALUE_TYPE(R18, n4), V<1804>> && Same<Bare<decltype(R18::n4)>, json_::R18Impl::n4> && Same<Bare<decltype(std::declval<R18 &>()[R18::n4])>, V<1804>>, "pair 4 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n5::ValueType, V<1805>> && Same<JSON_VALUE_TYPE(R18, n5), V<1805>> && Same<Bare<decltype(R18::n5)>, json_::R18Impl::n5> && Same<Bare<decltype(std::declval<R18 &>()[R18::n5])>, V<1805>>, "pair 5 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n6::ValueType, V<1806>> && Same<JSON_VALUE_TYPE(R18, n6), V<1806>> && Same<Bare<decltype(R18::n6)>, json_::R18Impl::n6> && Same<Bare<decltype(std::declval<R18 &>()[R18::n6])>, V<1806>>, "pair 6 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n7::ValueType, V<1807>> && Same<JSON_VALUE_TYPE(R18, n7), V<1807>> && Same<Bare<decltype(R18::n7)>, json_::R18Impl::n7> && Same<Bare<decltype(std::declval<R18 &>()[R18::n7])>, V<1807>>, "pair 7 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n8::ValueType, V<1808>> && Same<JSON_VALUE_TYPE(R18, n8), V<1808>> && Same<Bare<decltype(R18::n8)>, json_::R18Impl::n8> && Same<Bare<decltype(std::declval<R18 &>()[R18::n8])>, V<1808>>, "pair 8 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n9::ValueType, std::pair<V<18>, V<9>>> && Same<JSON_VALUE_TYPE(R18, n9), std::pair<V<18>, V<9>>> && Same<Bare<decltype(R18::n9)>, json_::R18Impl::n9> && Same<Bare<decltype(std::declval<R18 &>()[R18::n9])>, std::pair<V<18>, V<9>>>, "pair 9 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n10::ValueType, V<1810>> && Same<JSON_VALUE_TYPE(R18, n10), V<1810>> && Same<Bare<decltype(R18::n10)>, json_::R18Impl::n10> && Same<Bare<decltype(std::declval<R18 &>()[R18::n10])>, V<1810>>, "pair 10 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n11::ValueType, V<1811>> && Same<JSON_VALUE_TYPE(R18, n11), V<1811>> && Same<Bare<decltype(R18::n11)>, json_::R18Impl::n11> && Same<Bare<decltype(std::declval<R18 &>()[R18::n11])>, V<1811>>, "pair 11 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n12::ValueType, V<1812>> && Same<JSON_VALUE_TYPE(R18, n12), V<1812>> && Same<Bare<decltype(R18::n12)>, json_::R18Impl::n12> && Same<Bare<decltype(std::declval<R18 &>()[R18::n12])>, V<1812>>, "pair 12 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n13::ValueType, V<1813>> && Same<JSON_VALUE_TYPE(R18, n13), V<1813>> && Same<Bare<decltype(R18::n13)>, json_::R18Impl::n13> && Same<Bare<decltype(std::declval<R18 &>()[R18::n13])>, V<1813>>, "pair 13 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n14::ValueType, V<1814>> && Same<JSON_VALUE_TYPE(R18, n14), V<1814>> && Same<Bare<decltype(R18::n14)>, json_::R18Impl::n14> && Same<Bare<decltype(std::declval<R18 &>()[R18::n14])>, V<1814>>, "pair 14 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n15::ValueType, V<1815>> && Same<JSON_VALUE_TYPE(R18, n15), V<1815>> && Same<Bare<decltype(R18::n15)>, json_::R18Impl::n15> && Same<Bare<decltype(std::declval<R18 &>()[R18::n15])>, V<1815>>, "pair 15 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n16::ValueType, V<1816>> && Same<JSON_VALUE_TYPE(R18, n16), V<1816>> && Same<Bare<decltype(R18::n16)>, json_::R18Impl::n16> && Same<Bare<decltype(std::declval<R18 &>()[R18::n16])>, V<1816>>, "pair 16 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n17::ValueType, V<1817>> && Same<JSON_VALUE_TYPE(R18, n17), V<1817>> && Same<Bare<decltype(R18::n17)>, json_::R18Impl::n17> && Same<Bare<decltype(std::declval<R18 &>()[R18::n17])>, V<1817>>, "pair 17 of 18 does not have its type");
static_assert(Same<json_::R18Impl::n18::ValueType, std::pair<V<18>, V<18>>> && Same<JSON_VALUE_TYPE(R18, n18), std::pair<V<18>, V<18>>> && Same<Bare<decltype(R18::n18)>, json_::R18Impl::n18> && Same<Bare<decltype(std::declval<R18 &>()[R18::n18])>, std::pair<V<18>, V<18>>>, "pair 18 of 18 does not have its type");
static_assert(Is<R18, json_::R18Impl::Base> && Is<json::Traits<R18>, json::Traits<json_::R18Impl::Base>> && Is<R18, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R19Impl::Base>::Type, std::tuple<json_::R19Impl::n1, json_::R19Impl::n2, json_::R19Impl::n3, json_::R19Impl::n4, json_::R19Impl::n5, json_::R19Impl::n6, json_::R19Impl::n7, json_::R19Impl::n8, json_::R19Impl::n9, json_::R19Impl::n10, json_::R19Impl::n11, json_::R19Impl::n12, json_::R19Impl::n13, json_::R19Impl::n14, json_::R19Impl::n15, json_::R19Impl::n16, json_::R19Impl::n17, json_::R19Impl::n18, json_::R19Impl::n19>>, "the cells of an object are not its 19 pairs in order");
static_assert(Same<json_::R19Impl::n1::ValueType, std::pair<V<19>, V<1>>> && Same<JSON_VALUE_TYPE(R19, n1), std::pair<V<19>, V<1>>> && Same<Bare<decltype(R19::n1)>, json_::R19Impl::n1> && Same<Bare<decltype(std::declval<R19 &>()[R19::n1])>, std::pair<V<19>, V<1>>>, "pair 1 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n2::ValueType, V<1902>> && Same<JSON_VALUE_TYPE(R19, n2), V<1902>> && Same<Bare<decltype(R19::n2)>, json_::R19Impl::n2> && Same<Bare<decltype(std::declval<R19 &>()[R19::n2])>, V<1902>>, "pair 2 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n3::ValueType, V<1903>> && Same<JSON_VALUE_TYPE(R19, n3), V<1903>> && Same<Bare<decltype(R19::n3)>, json_::R19Impl::n3> && Same<Bare<decltype(std::declval<R19 &>()[R19::n3])>, V<1903>>, "pair 3 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n4::ValueType, V<1904>> && Same<JSON_VALUE_TYPE(R19, n4), V<1904>> && Same<Bare<decltype(R19::n4)>, json_::R19Impl::n4> && Same<Bare<decltype(std::declval<R19 &>()[R19::n4])>, V<1904>>, "pair 4 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n5::ValueType, V<1905>> && Same<JSON_VALUE_TYPE(R19, n5), V<1905>> && Same<Bare<decltype(R19::n5)>, json_::R19Impl::n5> && Same<Bare<decltype(std::declval<R19 &>()[R19::n5])>, V<1905>>, "pair 5 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n6::ValueType, V<1906>> && Same<JSON_VALUE_TYPE(R19, n6), V<1906>> && Same<Bare<decltype(R19::n6)>, json_::R19Impl::n6> && Same<Bare<decltype(std::declval<R19 &>()[R19::n6])>, V<1906>>, "pair 6 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n7::ValueType, V<1907>> && Same<JSON_VALUE_TYPE(R19, n7), V<1907>> && Same<Bare<decltype(R19::n7)>, json_::R19Impl::n7> && Same<Bare<decltype(std::declval<R19 &>()[R19::n7])>, V<1907>>, "pair 7 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n8::ValueType, V<1908>> && Same<JSON_VALUE_TYPE(R19, n8), V<1908>> && Same<Bare<decltype(R19::n8)>, json_::R19Impl::n8> && Same<Bare<decltype(std::declval<R19 &>()[R19::n8])>, V<1908>>, "pair 8 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n9::ValueType, std::pair<V<19>, V<9>>> && Same<JSON_VALUE_TYPE(R19, n9), std::pair<V<19>, V<9>>> && Same<Bare<decltype(R19::n9)>, json_::R19Impl::n9> && Same<Bare<decltype(std::declval<R19 &>()[R19::n9])>, std::pair<V<19>, V<9>>>, "pair 9 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n10::ValueType, V<1910>> && Same<JSON_VALUE_TYPE(R19, n10), V<1910>> && Same<Bare<decltype(R19::n10)>, json_::R19Impl::n10> && Same<Bare<decltype(std::declval<R19 &>()[R19::n10])>, V<1910>>, "pair 10 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n11::ValueType, V<1911>> && Same<JSON_VALUE_TYPE(R19, n11), V<1911>> && Same<Bare<decltype(R19::n11)>, json_::R19Impl::n11> && Same<Bare<decltype(std::declval<R19 &>()[R19::n11])>, V<1911>>, "pair 11 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n12::ValueType, V<1912>> && Same<JSON_VALUE_TYPE(R19, n12), V<1912>> && Same<Bare<decltype(R19::n12)>, json_::R19Impl::n12> && Same<Bare<decltype(std::declval<R19 &>()[R19::n12])>, V<1912>>, "pair 12 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n13::ValueType, V<1913>> && Same<JSON_VALUE_TYPE(R19, n13), V<1913>> && Same<Bare<decltype(R19::n13)>, json_::R19Impl::n13> && Same<Bare<decltype(std::declval<R19 &>()[R19::n13])>, V<1913>>, "pair 13 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n14::ValueType, V<1914>> && Same<JSON_VALUE_TYPE(R19, n14), V<1914>> && Same<Bare<decltype(R19::n14)>, json_::R19Impl::n14> && Same<Bare<decltype(std::declval<R19 &>()[R19::n14])>, V<1914>>, "pair 14 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n15::ValueType, V<1915>> && Same<JSON_VALUE_TYPE(R19, n15), V<1915>> && Same<Bare<decltype(R19::n15)>, json_::R19Impl::n15> && Same<Bare<decltype(std::declval<R19 &>()[R19::n15])>, V<1915>>, "pair 15 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n16::ValueType, V<1916>> && Same<JSON_VALUE_TYPE(R19, n16), V<1916>> && Same<Bare<decltype(R19::n16)>, json_::R19Impl::n16> && Same<Bare<decltype(std::declval<R19 &>()[R19::n16])>, V<1916>>, "pair 16 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n17::ValueType, V<1917>> && Same<JSON_VALUE_TYPE(R19, n17), V<1917>> && Same<Bare<decltype(R19::n17)>, json_::R19Impl::n17> && Same<Bare<decltype(std::declval<R19 &>()[R19::n17])>, V<1917>>, "pair 17 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n18::ValueType, V<1918>> && Same<JSON_VALUE_TYPE(R19, n18), V<1918>> && Same<Bare<decltype(R19::n18)>, json_::R19Impl::n18> && Same<Bare<decltype(std::declval<R19 &>()[R19::n18])>, V<1918>>, "pair 18 of 19 does not have its type");
static_assert(Same<json_::R19Impl::n19::ValueType, std::pair<V<19>, V<19>>> && Same<JSON_VALUE_TYPE(R19, n19), std::pair<V<19>, V<19>>> && Same<Bare<decltype(R19::n19)>, json_::R19Impl::n19> && Same<Bare<decltype(std::declval<R19 &>()[R19::n19])>, std::pair<V<19>, V<19>>>, "pair 19 of 19 does not have its type");
static_assert(Is<R19, json_::R19Impl::Base> && Is<json::Traits<R19>, json::Traits<json_::R19Impl::Base>> && Is<R19, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R20Impl::Base>::Type, std::tuple<json_::R20Impl::n1, json_::R20Impl::n2, json_::R20Impl::n3, json_::R20Impl::n4, json_::R20Impl::n5, json_::R20Impl::n6, json_::R20Impl::n7, json_::R20Impl::n8, json_::R20Impl::n9, json_::R20Impl::n10, json_::R20Impl::n11, json_::R20Impl::n12, json_::R20Impl::n13, json_::R20Impl::n14, json_::R20Impl::n15, json_::R20Impl::n16, json_::R20Impl::n17, json_::R20Impl::n18, json_::R20Impl::n19, json_::R20Impl::n20>>, "the cells of an object are not its 20 pairs in order");
static_assert(Same<json_::R20Impl::n1::ValueType, std::pair<V<20>, V<1>>> && Same<JSON_VALUE_TYPE(R20, n1), std::pair<V<20>, V<1>>> && Same<Bare<decltype(R20::n1)>, json_::R20Impl::n1> && Same<Bare<decltype(std::declval<R20 &>()[R20::n1])>, std::pair<V<20>, V<1>>>, "pair 1 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n2::ValueType, V<2002>> && Same<JSON_VALUE_TYPE(R20, n2), V<2002>> && Same<Bare<decltype(R20::n2)>, json_::R20Impl::n2> && Same<Bare<decltype(std::declval<R20 &>()[R20::n2])>, V<2002>>, "pair 2 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n3::ValueType, V<2003>> && Same<JSON_VALUE_TYPE(R20, n3), V<2003>> && Same<Bare<decltype(R20::n3)>, json_::R20Impl::n3> && Same<Bare<decltype(std::declval<R20 &>()[R20::n3])>, V<2003>>, "pair 3 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n4::ValueType, V<2004>> && Same<JSON_VALUE_TYPE(R20, n4), V<2004>> && Same<Bare<decltype(R20::n4)>, json_::R20Impl::n4> && Same<Bare<decltype(std::declval<R20 &>()[R20::n4])>, V<2004>>, "pair 4 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n5::ValueType, V<2005>> && Same<JSON_VALUE_TYPE(R20, n5), V<2005>> && Same<Bare<decltype(R20::n5)>, json_::R20Impl::n5> && Same<Bare<decltype(std::declval<R20 &>()[R20::n5])>, V<2005>>, "pair 5 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n6::ValueType, V<2006>> && Same<JSON_VALUE_TYPE(R20, n6), V<2006>> && Same<Bare<decltype(R20::n6)>, json_::R20Impl::n6> && Same<Bare<decltype(std::declval<R20 &>()[R20::n6])>, V<2006>>, "pair 6 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n7::ValueType, V<2007>> && Same<JSON_VALUE_TYPE(R20, n7), V<2007>> && Same<Bare<decltype(R20::n7)>, json_::R20Impl::n7> && Same<Bare<decltype(std::declval<R20 &>()[R20::n7])>, V<2007>>, "pair 7 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n8::ValueType, V<2008>> && Same<JSON_VALUE_TYPE(R20, n8), V<2008>> && Same<Bare<decltype(R20::n8)>, json_::R20Impl::n8> && Same<Bare<decltype(std::declval<R20 &>()[R20::n8])>, V<2008>>, "pair 8 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n9::ValueType, V<2009>> && Same<JSON_VALUE_TYPE(R20, n9), V<2009>> && Same<Bare<decltype(R20::n9)>, json_::R20Impl::n9> && Same<Bare<decltype(std::declval<R20 &>()[R20::n9])>, V<2009>>, "pair 9 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n10::ValueType, std::pair<V<20>, V<10>>> && Same<JSON_VALUE_TYPE(R20, n10), std::pair<V<20>, V<10>>> && Same<Bare<decltype(R20::n10)>, json_::R20Impl::n10> && Same<Bare<decltype(std::declval<R20 &>()[R20::n10])>, std::pair<V<20>, V<10>>>, "pair 10 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n11::ValueType, V<2011>> && Same<JSON_VALUE_TYPE(R20, n11), V<2011>> && Same<Bare<decltype(R20::n11)>, json_::R20Impl::n11> && Same<Bare<decltype(std::declval<R20 &>()[R20::n11])>, V<2011>>, "pair 11 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n12::ValueType, V<2012>> && Same<JSON_VALUE_TYPE(R20, n12), V<2012>> && Same<Bare<decltype(R20::n12)>, json_::R20Impl::n12> && Same<Bare<decltype(std::declval<R20 &>()[R20::n12])>, V<2012>>, "pair 12 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n13::ValueType, V<2013>> && Same<JSON_VALUE_TYPE(R20, n13), V<2013>> && Same<Bare<decltype(R20::n13)>, json_::R20Impl::n13> && Same<Bare<decltype(std::declval<R20 &>()[R20::n13])>, V<2013>>, "pair 13 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n14::ValueType, V<2014>> && Same<JSON_VALUE_TYPE(R20, n14), V<2014>> && Same<Bare<decltype(R20::n14)>, json_::R20Impl::n14> && Same<Bare<decltype(std::declval<R20 &>()[R20::n14])>, V<2014>>, "pair 14 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n15::ValueType, V<2015>> && Same<JSON_VALUE_TYPE(R20, n15), V<2015>> && Same<Bare<decltype(R20::n15)>, json_::R20Impl::n15> && Same<Bare<decltype(std::declval<R20 &>()[R20::n15])>, V<2015>>, "pair 15 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n16::ValueType, V<2016>> && Same<JSON_VALUE_TYPE(R20, n16), V<2016>> && Same<Bare<decltype(R20::n16)>, json_::R20Impl::n16> && Same<Bare<decltype(std::declval<R20 &>()[R20::n16])>, V<2016>>, "pair 16 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n17::ValueType, V<2017>> && Same<JSON_VALUE_TYPE(R20, n17), V<2017>> && Same<Bare<decltype(R20::n17)>, json_::R20Impl::n17> && Same<Bare<decltype(std::declval<R20 &>()[R20::n17])>, V<2017>>, "pair 17 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n18::ValueType, V<2018>> && Same<JSON_VALUE_TYPE(R20, n18), V<2018>> && Same<Bare<decltype(R20::n18)>, json_::R20Impl::n18> && Same<Bare<decltype(std::declval<R20 &>()[R20::n18])>, V<2018>>, "pair 18 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n19::ValueType, V<2019>> && Same<JSON_VALUE_TYPE(R20, n19), V<2019>> && Same<Bare<decltype(R20::n19)>, json_::R20Impl::n19> && Same<Bare<decltype(std::declval<R20 &>()[R20::n19])>, V<2019>>, "pair 19 of 20 does not have its type");
static_assert(Same<json_::R20Impl::n20::ValueType, std::pair<V<20>, V<20>>> && Same<JSON_VALUE_TYPE(R20, n20), std::pair<V<20>, V<20>>> && Same<Bare<decltype(R20::n20)>, json_::R20Impl::n20> && Same<Bare<decltype(std::declval<R20 &>()[R20::n20])>, std::pair<V<20>, V<20>>>, "pair 20 of 20 does not have its type");
static_assert(Is<R20, json_::R20Impl::Base> && Is<json::Traits<R20>, json::Traits<json_::R20Impl::Base>> && Is<R20, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R21Impl::Base>::Type, std::tuple<json_::R21Impl::n1, json_::R21Impl::n2, json_::R21Impl::n3, json_::R21Impl::n4, json_::R21Impl::n5, json_::R21Impl::n6, json_::R21Impl::n7, json_::R21Impl::n8, json_::R21Impl::n9, json_::R21Impl::n10, json_::R21Impl::n11, json_::R21Impl::n12, json_::R21Impl::n13, json_::R21Impl::n14, json_::R21Impl::n15, json_::R21Impl::n16, json_::R21Impl::n17, json_::R21Impl::n18, json_::R21Impl::n19, json_::R21Impl::n20, json_::R21Impl::n21>>, "the cells of an object are not its 21 pairs in order");
static_assert(Same<json_::R21Impl::n1::ValueType, std::pair<V<21>, V<1>>> && Same<JSON_VALUE_TYPE(R21, n1), std::pair<V<21>, V<1>>> && Same<Bare<decltype(R21::n1)>, json_::R21Impl::n1> && Same<Bare<decltype(std::declval<R21 &>()[R21::n1])>, std::pair<V<21>, V<1>>>, "pair 1 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n2::ValueType, V<2102>> && Same<JSON_VALUE_TYPE(R21, n2), V<2102>> && Same<Bare<decltype(R21::n2)>, json_::R21Impl::n2> && Same<Bare<decltype(std::declval<R21 &>()[R21::n2])>, V<2102>>, "pair 2 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n3::ValueType, V<2103>> && Same<JSON_VALUE_TYPE(R21, n3), V<2103>> && Same<Bare<decltype(R21::n3)>, json_::R21Impl::n3> && Same<Bare<decltype(std::declval<R21 &>()[R21::n3])>, V<2103>>, "pair 3 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n4::ValueType, V<2104>> && Same<JSON_VALUE_TYPE(R21, n4), V<2104>> && Same<Bare<decltype(R21::n4)>, json_::R21Impl::n4> && Same<Bare<decltype(std::declval<R21 &>()[R21::n4])>, V<2104>>, "pair 4 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n5::ValueType, V<2105>> && Same<JSON_VALUE_TYPE(R21, n5), V<2105>> && Same<Bare<decltype(R21::n5)>, json_::R21Impl::n5> && Same<Bare<decltype(std::declval<R21 &>()[R21::n5])>, V<2105>>, "pair 5 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n6::ValueType, V<2106>> && Same<JSON_VALUE_TYPE(R21, n6), V<2106>> && Same<Bare<decltype(R21::n6)>, json_::R21Impl::n6> && Same<Bare<decltype(std::declval<R21 &>()[R21::n6])>, V<2106>>, "pair 6 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n7::ValueType, V<2107>> && Same<JSON_VALUE_TYPE(R21, n7), V<2107>> && Same<Bare<decltype(R21::n7)>, json_::R21Impl::n7> && Same<Bare<decltype(std::declval<R21 &>()[R21::n7])>, V<2107>>, "pair 7 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n8::ValueType, V<2108>> && Same<JSON_VALUE_TYPE(R21, n8), V<2108>> && Same<Bare<decltype(R21::n8)>, json_::R21Impl::n8> && Same<Bare<decltype(std::declval<R21 &>()[R21::n8])>, V<2108>>, "pair 8 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n9::ValueType, V<2109>> && Same<JSON_VALUE_TYPE(R21, n9), V<2109>> && Same<Bare<decltype(R21::n9)>, json_::R21Impl::n9> && Same<Bare<decltype(std::declval<R21 &>()[R21::n9])>, V<2109>>, "pair 9 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n10::ValueType, std::pair<V<21>, V<10>>> && Same<JSON_VALUE_TYPE(R21, n10), std::pair<V<21>, V<10>>> && Same<Bare<decltype(R21::n10)>, json_::R21Impl::n10> && Same<Bare<decltype(std::declval<R21 &>()[R21::n10])>, std::pair<V<21>, V<10>>>, "pair 10 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n11::ValueType, V<2111>> && Same<JSON_VALUE_TYPE(R21, n11), V<2111>> && Same<Bare<decltype(R21::n11)>, json_::R21Impl::n11> && Same<Bare<decltype(std::declval<R21 &>()[R21::n11])>, V<2111>>, "pair 11 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n12::ValueType, V<2112>> && Same<JSON_VALUE_TYPE(R21, n12), V<2112>> && Same<Bare<decltype(R21::n12)>, json_::R21Impl::n12> && Same<Bare<decltype(std::declval<R21 &>()[R21::n12])>, V<2112>>, "pair 12 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n13::ValueType, V<2113>> && Same<JSON_VALUE_TYPE(R21, n13), V<2113>> && Same<Bare<decltype(R21::n13)>, json_::R21Impl::n13> && Same<Bare<decltype(std::declval<R21 &>()[R21::n13])>, V<2113>>, "pair 13 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n14::ValueType, V<2114>> && Same<JSON_VALUE_TYPE(R21, n14), V<2114>> && Same<Bare<decltype(R21::n14)>, json_::R21Impl::n14> && Same<Bare<decltype(std::declval<R21 &>()[R21::n14])>, V<2114>>, "pair 14 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n15::ValueType, V<2115>> && Same<JSON_VALUE_TYPE(R21, n15), V<2115>> && Same<Bare<decltype(R21::n15)>, json_::R21Impl::n15> && Same<Bare<decltype(std::declval<R21 &>()[R21::n15])>, V<2115>>, "pair 15 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n16::ValueType, V<2116>> && Same<JSON_VALUE_TYPE(R21, n16), V<2116>> && Same<Bare<decltype(R21::n16)>, json_::R21Impl::n16> && Same<Bare<decltype(std::declval<R21 &>()[R21::n16])>, V<2116>>, "pair 16 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n17::ValueType, V<2117>> && Same<JSON_VALUE_TYPE(R21, n17), V<2117>> && Same<Bare<decltype(R21::n17)>, json_::R21Impl::n17> && Same<Bare<decltype(std::declval<R21 &>()[R21::n17])>, V<2117>>, "pair 17 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n18::ValueType, V<2118>> && Same<JSON_VALUE_TYPE(R21, n18), V<2118>> && Same<Bare<decltype(R21::n18)>, json_::R21Impl::n18> && Same<Bare<decltype(std::declval<R21 &>()[R21::n18])>, V<2118>>, "pair 18 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n19::ValueType, V<2119>> && Same<JSON_VALUE_TYPE(R21, n19), V<2119>> && Same<Bare<decltype(R21::n19)>, json_::R21Impl::n19> && Same<Bare<decltype(std::declval<R21 &>()[R21::n19])>, V<2119>>, "pair 19 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n20::ValueType, V<2120>> && Same<JSON_VALUE_TYPE(R21, n20), V<2120>> && Same<Bare<decltype(R21::n20)>, json_::R21Impl::n20> && Same<Bare<decltype(std::declval<R21 &>()[R21::n20])>, V<2120>>, "pair 20 of 21 does not have its type");
static_assert(Same<json_::R21Impl::n21::ValueType, std::pair<V<21>, V<21>>> && Same<JSON_VALUE_TYPE(R21, n21), std::pair<V<21>, V<21>>> && Same<Bare<decltype(R21::n21)>, json_::R21Impl::n21> && Same<Bare<decltype(std::declval<R21 &>()[R21::n21])>, std::pair<V<21>, V<21>>>, "pair 21 of 21 does not have its type");
static_assert(Is<R21, json_::R21Impl::Base> && Is<json::Traits<R21>, json::Traits<json_::R21Impl::Base>> && Is<R21, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R22Impl::Base>::Type, std::tuple<json_::R22Impl::n1, json_::R22Impl::n2, json_::R22Impl::n3, json_::R22Impl::n4, json_::R22Impl::n5, json_::R22Impl::n6, json_::R22Impl::n7, json_::R22Impl::n8, json_::R22Impl::n9, json_::R22Impl::n10, json_::R22Impl::n11, json_::R22Impl::n12, json_::R22Impl::n13, json_::R22Impl::n14, json_::R22Impl::n15, json_::R22Impl::n16, json_::R22Impl::n17, json_::R22Impl::n18, json_::R22Impl::n19, json_::R22Impl::n20, json_::R22Impl::n21, json_::R22Impl::n22>>, "the cells of an object are not its 22 pairs in order");
static_assert(Same<json_::R22Impl::n1::ValueType, std::pair<V<22>, V<1>>> && Same<JSON_VALUE_TYPE(R22, n1), std::pair<V<22>, V<1>>> && Same<Bare<decltype(R22::n1)>, json_::R22Impl::n1> && Same<Bare<decltype(std::declval<R22 &>()[R22::n1])>, std::pair<V<22>, V<1>>>, "pair 1 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n2::ValueType, V<2202>> && Same<JSON_VALUE_TYPE(R22, n2), V<2202>> && Same<Bare<decltype(R22::n2)>, json_::R22Impl::n2> && Same<Bare<decltype(std::declval<R22 &>()[R22::n2])>, V<2202>>, "pair 2 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n3::ValueType, V<2203>> && Same<JSON_VALUE_TYPE(R22, n3), V<2203>> && Same<Bare<decltype(R22::n3)>, json_::R22Impl::n3> && Same<Bare<decltype(std::declval<R22 &>()[R22::n3])>, V<2203>>, "pair 3 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n4::ValueType, V<2204>> && Same<JSON_VALUE_TYPE(R22, n4), V<2204>> && Same<Bare<decltype(R22::n4)>, json_::R22Impl::n4> && Same<Bare<decltype(std::declval<R22 &>()[R22::n4])>, V<2204>>, "pair 4 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n5::ValueType, V<2205>> && Same<JSON_VALUE_TYPE(R22, n5), V<2205>> && Same<Bare<decltype(R22::n5)>, json_::R22Impl::n5> && Same<Bare<decltype(std::declval<R22 &>()[R22::n5])>, V<2205>>, "pair 5 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n6::ValueType, V<2206>> && Same<JSON_VALUE_TYPE(R22, n6), V<2206>> && Same<Bare<decltype(R22::n6)>, json_::R22Impl::n6> && Same<Bare<decltype(std::declval<R22 &>()[R22::n6])>, V<2206>>, "pair 6 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n7::ValueType, V<2207>> && Same<JSON_VALUE_TYPE(R22, n7), V<2207>> && Same<Bare<decltype(R22::n7)>, json_::R22Impl::n7> && Same<Bare<decltype(std::declval<R22 &>()[R22::n7])>, V<2207>>, "pair 7 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n8::ValueType, V<2208>> && Same<JSON_VALUE_TYPE(R22, n8), V<2208>> && Same<Bare<decltype(R22::n8)>, json_::R22Impl::n8> && Same<Bare<decltype(std::declval<R22 &>()[R22::n8])>, V<2208>>, "pair 8 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n9::ValueType, V<2209>> && Same<JSON_VALUE_TYPE(R22, n9), V<2209>> && Same<Bare<decltype(R22::n9)>, json_::R22Impl::n9> && Same<Bare<decltype(std::declval<R22 &>()[R22::n9])>, V<2209>>, "pair 9 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n10::ValueType, V<2210>> && Same<JSON_VALUE_TYPE(R22, n10), V<2210>> && Same<Bare<decltype(R22::n10)>, json_::R22Impl::n10> && Same<Bare<decltype(std::declval<R22 &>()[R22::n10])>, V<2210>>, "pair 10 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n11::ValueType, std::pair<V<22>, V<11>>> && Same<JSON_VALUE_TYPE(R22, n11), std::pair<V<22>, V<11>>> && Same<Bare<decltype(R22::n11)>, json_::R22Impl::n11> && Same<Bare<decltype(std::declval<R22 &>()[R22::n11])>, std::pair<V<22>, V<11>>>, "pair 11 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n12::ValueType, V<2212>> && Same<JSON_VALUE_TYPE(R22, n12), V<2212>> && Same<Bare<decltype(R22::n12)>, json_::R22Impl::n12> && Same<Bare<decltype(std::declval<R22 &>()[R22::n12])>, V<2212>>, "pair 12 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n13::ValueType, V<2213>> && Same<JSON_VALUE_TYPE(R22, n13), V<2213>> && Same<Bare<decltype(R22::n13)>, json_::R22Impl::n13> && Same<Bare<decltype(std::declval<R22 &>()[R22::n13])>, V<2213>>, "pair 13 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n14::ValueType, V<2214>> && Same<JSON_VALUE_TYPE(R22, n14), V<2214>> && Same<Bare<decltype(R22::n14)>, json_::R22Impl::n14> && Same<Bare<decltype(std::declval<R22 &>()[R22::n14])>, V<2214>>, "pair 14 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n15::ValueType, V<2215>> && Same<JSON_VALUE_TYPE(R22, n15), V<2215>> && Same<Bare<decltype(R22::n15)>, json_::R22Impl::n15> && Same<Bare<decltype(std::declval<R22 &>()[R22::n15])>, V<2215>>, "pair 15 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n16::ValueType, V<2216>> && Same<JSON_VALUE_TYPE(R22, n16), V<2216>> && Same<Bare<decltype(R22::n16)>, json_::R22Impl::n16> && Same<Bare<decltype(std::declval<R22 &>()[R22::n16])>, V<2216>>, "pair 16 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n17::ValueType, V<2217>> && Same<JSON_VALUE_TYPE(R22, n17), V<2217>> && Same<Bare<decltype(R22::n17)>, json_::R22Impl::n17> && Same<Bare<decltype(std::declval<R22 &>()[R22::n17])>, V<2217>>, "pair 17 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n18::ValueType, V<2218>> && Same<JSON_VALUE_TYPE(R22, n18), V<2218>> && Same<Bare<decltype(R22::n18)>, json_::R22Impl::n18> && Same<Bare<decltype(std::declval<R22 &>()[R22::n18])>, V<2218>>, "pair 18 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n19::ValueType, V<2219>> && Same<JSON_VALUE_TYPE(R22, n19), V<2219>> && Same<Bare<decltype(R22::n19)>, json_::R22Impl::n19> && Same<Bare<decltype(std::declval<R22 &>()[R22::n19])>, V<2219>>, "pair 19 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n20::ValueType, V<2220>> && Same<JSON_VALUE_TYPE(R22, n20), V<2220>> && Same<Bare<decltype(R22::n20)>, json_::R22Impl::n20> && Same<Bare<decltype(std::declval<R22 &>()[R22::n20])>, V<2220>>, "pair 20 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n21::ValueType, V<2221>> && Same<JSON_VALUE_TYPE(R22, n21), V<2221>> && Same<Bare<decltype(R22::n21)>, json_::R22Impl::n21> && Same<Bare<decltype(std::declval<R22 &>()[R22::n21])>, V<2221>>, "pair 21 of 22 does not have its type");
static_assert(Same<json_::R22Impl::n22::ValueType, std::pair<V<22>, V<22>>> && Same<JSON_VALUE_TYPE(R22, n22), std::pair<V<22>, V<22>>> && Same<Bare<decltype(R22::n22)>, json_::R22Impl::n22> && Same<Bare<decltype(std::declval<R22 &>()[R22::n22])>, std::pair<V<22>, V<22>>>, "pair 22 of 22 does not have its type");
static_assert(Is<R22, json_::R22Impl::Base> && Is<json::Traits<R22>, json::Traits<json_::R22Impl::Base>> && Is<R22, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R23Impl::Base>::Type, std::tuple<json_::R23Impl::n1, json_::R23Impl::n2, json_::R23Impl::n3, json_::R23Impl::n4, json_::R23Impl::n5, json_::R23Impl::n6, json_::R23Impl::n7, json_::R23Impl::n8, json_::R23Impl::n9, json_::R23Impl::n10, json_::R23Impl::n11, json_::R23Impl::n12, json_::R23Impl::n13, json_::R23Impl::n14, json_::R23Impl::n15, json_::R23Impl::n16, json_::R23Impl::n17, json_::R23Impl::n18, json_::R23Impl::n19, json_::R23Impl::n20, json_::R23Impl::n21, json_::R23Impl::n22, json_::R23Impl::n23>>, "the cells of an object are not its 23 pairs in order");
static_assert(Same<json_::R23Impl::n1::ValueType, std::pair<V<23>, V<1>>> && Same<JSON_VALUE_TYPE(R23, n1), std::pair<V<23>, V<1>>> && Same<Bare<decltype(R23::n1)>, json_::R23Impl::n1> && Same<Bare<decltype(std::declval<R23 &>()[R23::n1])>, std::pair<V<23>, V<1>>>, "pair 1 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n2::ValueType, V<2302>> && Same<JSON_VALUE_TYPE(R23, n2), V<2302>> && Same<Bare<decltype(R23::n2)>, json_::R23Impl::n2> && Same<Bare<decltype(std::declval<R23 &>()[R23::n2])>, V<2302>>, "pair 2 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n3::ValueType, V<2303>> && Same<JSON_VALUE_TYPE(R23, n3), V<2303>> && Same<Bare<decltype(R23::n3)>, json_::R23Impl::n3> && Same<Bare<decltype(std::declval<R23 &>()[R23::n3])>, V<2303>>, "pair 3 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n4::ValueType, V<2304>> && Same<JSON_VALUE_TYPE(R23, n4), V<2304>> && Same<Bare<decltype(R23::n4)>, json_::R23Impl::n4> && Same<Bare<decltype(std::declval<R23 &>()[R23::n4])>, V<2304>>, "pair 4 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n5::ValueType, V<2305>> && Same<JSON_VALUE_TYPE(R23, n5), V<2305>> && Same<Bare<decltype(R23::n5)>, json_::R23Impl::n5> && Same<Bare<decltype(std::declval<R23 &>()[R23::n5])>, V<2305>>, "pair 5 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n6::ValueType, V<2306>> && Same<JSON_VALUE_TYPE(R23, n6), V<2306>> && Same<Bare<decltype(R23::n6)>, json_::R23Impl::n6> && Same<Bare<decltype(std::declval<R23 &>()[R23::n6])>, V<2306>>, "pair 6 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n7::ValueType, V<2307>> && Same<JSON_VALUE_TYPE(R23, n7), V<2307>> && Same<Bare<decltype(R23::n7)>, json_::R23Impl::n7> && Same<Bare<decltype(std::declval<R23 &>()[R23::n7])>, V<2307>>, "pair 7 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n8::ValueType, V<2308>> && Same<JSON_VALUE_TYPE(R23, n8), V<2308>> && Same<Bare<decltype(R23::n8)>, json_::R23Impl::n8> && Same<Bare<decltype(std::declval<R23 &>()[R23::n8])>, V<2308>>, "pair 8 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n9::ValueType, V<2309>> && Same<JSON_VALUE_TYPE(R23, n9), V<2309>> && Same<Bare<decltype(R23::n9)>, json_::R23Impl::n9> && Same<Bare<decltype(std::declval<R23 &>()[R23::n9])>, V<2309>>, "pair 9 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n10::ValueType, V<2310>> && Same<JSON_VALUE_TYPE(R23, n10), V<2310>> && Same<Bare<decltype(R23::n10)>, json_::R23Impl::n10> && Same<Bare<decltype(std::declval<R23 &>()[R23::n10])>, V<2310>>, "pair 10 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n11::ValueType, std::pair<V<23>, V<11>>> && Same<JSON_VALUE_TYPE(R23, n11), std::pair<V<23>, V<11>>> && Same<Bare<decltype(R23::n11)>, json_::R23Impl::n11> && Same<Bare<decltype(std::declval<R23 &>()[R23::n11])>, std::pair<V<23>, V<11>>>, "pair 11 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n12::ValueType, V<2312>> && Same<JSON_VALUE_TYPE(R23, n12), V<2312>> && Same<Bare<decltype(R23::n12)>, json_::R23Impl::n12> && Same<Bare<decltype(std::declval<R23 &>()[R23::n12])>, V<2312>>, "pair 12 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n13::ValueType, V<2313>> && Same<JSON_VALUE_TYPE(R23, n13), V<2313>> && Same<Bare<decltype(R23::n13)>, json_::R23Impl::n13> && Same<Bare<decltype(std::declval<R23 &>()[R23::n13])>, V<2313>>, "pair 13 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n14::ValueType, V<2314>> && Same<JSON_VALUE_TYPE(R23, n14), V<2314>> && Same<Bare<decltype(R23::n14)>, json_::R23Impl::n14> && Same<Bare<decltype(std::declval<R23 &>()[R23::n14])>, V<2314>>, "pair 14 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n15::ValueType, V<2315>> && Same<JSON_VALUE_TYPE(R23, n15), V<2315>> && Same<Bare<decltype(R23::n15)>, json_::R23Impl::n15> && Same<Bare<decltype(std::declval<R23 &>()[R23::n15])>, V<2315>>, "pair 15 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n16::ValueType, V<2316>> && Same<JSON_VALUE_TYPE(R23, n16), V<2316>> && Same<Bare<decltype(R23::n16)>, json_::R23Impl::n16> && Same<Bare<decltype(std::declval<R23 &>()[R23::n16])>, V<2316>>, "pair 16 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n17::ValueType, V<2317>> && Same<JSON_VALUE_TYPE(R23, n17), V<2317>> && Same<Bare<decltype(R23::n17)>, json_::R23Impl::n17> && Same<Bare<decltype(std::declval<R23 &>()[R23::n17])>, V<2317>>, "pair 17 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n18::ValueType, V<2318>> && Same<JSON_VALUE_TYPE(R23, n18), V<2318>> && Same<Bare<decltype(R23::n18)>, json_::R23Impl::n18> && Same<Bare<decltype(std::declval<R23 &>()[R23::n18])>, V<2318>>, "pair 18 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n19::ValueType, V<2319>> && Same<JSON_VALUE_TYPE(R23, n19), V<2319>> && Same<Bare<decltype(R23::n19)>, json_::R23Impl::n19> && Same<Bare<decltype(std::declval<R23 &>()[R23::n19])>, V<2319>>, "pair 19 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n20::ValueType, V<2320>> && Same<JSON_VALUE_TYPE(R23, n20), V<2320>> && Same<Bare<decltype(R23::n20)>, json_::R23Impl::n20> && Same<Bare<decltype(std::declval<R23 &>()[R23::n20])>, V<2320>>, "pair 20 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n21::ValueType, V<2321>> && Same<JSON_VALUE_TYPE(R23, n21), V<2321>> && Same<Bare<decltype(R23::n21)>, json_::R23Impl::n21> && Same<Bare<decltype(std::declval<R23 &>()[R23::n21])>, V<2321>>, "pair 21 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n22::ValueType, V<2322>> && Same<JSON_VALUE_TYPE(R23, n22), V<2322>> && Same<Bare<decltype(R23::n22)>, json_::R23Impl::n22> && Same<Bare<decltype(std::declval<R23 &>()[R23::n22])>, V<2322>>, "pair 22 of 23 does not have its type");
static_assert(Same<json_::R23Impl::n23::ValueType, std::pair<V<23>, V<23>>> && Same<JSON_VALUE_TYPE(R23, n23), std::pair<V<23>, V<23>>> && Same<Bare<decltype(R23::n23)>, json_::R23Impl::n23> && Same<Bare<decltype(std::declval<R23 &>()[R23::n23])>, std::pair<V<23>, V<23>>>, "pair 23 of 23 does not have its type");
static_assert(Is<R23, json_::R23Impl::Base> && Is<json::Traits<R23>, json::Traits<json_::R23Impl::Base>> && Is<R23, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R24Impl::Base>::Type, std::tuple<json_::R24Impl::n1, json_::R24Impl::n2, json_::R24Impl::n3, json_::R24Impl::n4, json_::R24Impl::n5, json_::R24Impl::n6, json_::R24Impl::n7, json_::R24Impl::n8, json_::R24Impl::n9, json_::R24Impl::n10, json_::R24Impl::n11, json_::R24Impl::n12, json_::R24Impl::n13, json_::R24Impl::n14, json_::R24Impl::n15, json_::R24Impl::n16, json_::R24Impl::n17, json_::R24Impl::n18, json_::R24Impl::n19, json_::R24Impl::n20, json_::R24Impl::n21, json_::R24Impl::n22, json_::R24Impl::n23, json_::R24Impl::n24>>, "the cells of an object are not its 24 pairs in order");
static_assert(Same<json_::R24Impl::n1::ValueType, std::pair<V<24>, V<1>>> && Same<JSON_VALUE_TYPE(R24, n1), std::pair<V<24>, V<1>>> && Same<Bare<decltype(R24::n1)>, json_::R24Impl::n1> && Same<Bare<decltype(std::declval<R24 &>()[R24::n1])>, std::pair<V<24>, V<1>>>, "pair 1 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n2::ValueType, V<2402>> && Same<JSON_VALUE_TYPE(R24, n2), V<2402>> && Same<Bare<decltype(R24::n2)>, json_::R24Impl::n2> && Same<Bare<decltype(std::declval<R24 &>()[R24::n2])>, V<2402>>, "pair 2 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n3::ValueType, V<2403>> && Same<JSON_VALUE_TYPE(R24, n3), V<2403>> && Same<Bare<decltype(R24::n3)>, json_::R24Impl::n3> && Same<Bare<decltype(std::declval<R24 &>()[R24::n3])>, V<2403>>, "pair 3 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n4::ValueType, V<2404>> && Same<JSON_VALUE_TYPE(R24, n4), V<2404>> && Same<Bare<decltype(R24::n4)>, json_::R24Impl::n4> && Same<Bare<decltype(std::declval<R24 &>()[R24::n4])>, V<2404>>, "pair 4 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n5::ValueType, V<2405>> && Same<JSON_VALUE_TYPE(R24, n5), V<2405>> && Same<Bare<decltype(R24::n5)>, json_::R24Impl::n5> && Same<Bare<decltype(std::declval<R24 &>()[R24::n5])>, V<2405>>, "pair 5 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n6::ValueType, V<2406>> && Same<JSON_VALUE_TYPE(R24, n6), V<2406>> && Same<Bare<decltype(R24::n6)>, json_::R24Impl::n6> && Same<Bare<decltype(std::declval<R24 &>()[R24::n6])>, V<2406>>, "pair 6 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n7::ValueType, V<2407>> && Same<JSON_VALUE_TYPE(R24, n7), V<2407>> && Same<Bare<decltype(R24::n7)>, json_::R24Impl::n7> && Same<Bare<decltype(std::declval<R24 &>()[R24::n7])>, V<2407>>, "pair 7 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n8::ValueType, V<2408>> && Same<JSON_VALUE_TYPE(R24, n8), V<2408>> && Same<Bare<decltype(R24::n8)>, json_::R24Impl::n8> && Same<Bare<decltype(std::declval<R24 &>()[R24::n8])>, V<2408>>, "pair 8 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n9::ValueType, V<2409>> && Same<JSON_VALUE_TYPE(R24, n9), V<2409>> && Same<Bare<decltype(R24::n9)>, json_::R24Impl::n9> && Same<Bare<decltype(std::declval<R24 &>()[R24::n9])>, V<2409>>, "pair 9 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n10::ValueType, V<2410>> && Same<JSON_VALUE_TYPE(R24, n10), V<2410>> && Same<Bare<decltype(R24::n10)>, json_::R24Impl::n10> && Same<Bare<decltype(std::declval<R24 &>()[R24::n10])>, V<2410>>, "pair 10 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n11::ValueType, V<2411>> && Same<JSON_VALUE_TYPE(R24, n11), V<2411>> && Same<Bare<decltype(R24::n11)>, json_::R24Impl::n11> && Same<Bare<decltype(std::declval<R24 &>()[R24::n11])>, V<2411>>, "pair 11 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n12::ValueType, std::pair<V<24>, V<12>>> && Same<JSON_VALUE_TYPE(R24, n12), std::pair<V<24>, V<12>>> && Same<Bare<decltype(R24::n12)>, json_::R24Impl::n12> && Same<Bare<decltype(std::declval<R24 &>()[R24::n12])>, std::pair<V<24>, V<12>>>, "pair 12 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n13::ValueType, V<2413>> && Same<JSON_VALUE_TYPE(R24, n13), V<2413>> && Same<Bare<decltype(R24::n13)>, json_::R24Impl::n13> && Same<Bare<decltype(std::declval<R24 &>()[R24::n13])>, V<2413>>, "pair 13 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n14::ValueType, V<2414>> && Same<JSON_VALUE_TYPE(R24, n14), V<2414>> && Same<Bare<decltype(R24::n14)>, json_::R24Impl::n14> && Same<Bare<decltype(std::declval<R24 &>()[R24::n14])>, V<2414>>, "pair 14 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n15::ValueType, V<2415>> && Same<JSON_VALUE_TYPE(R24, n15), V<2415>> && Same<Bare<decltype(R24::n15)>, json_::R24Impl::n15> && Same<Bare<decltype(std::declval<R24 &>()[R24::n15])>, V<2415>>, "pair 15 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n16::ValueType, V<2416>> && Same<JSON_VALUE_TYPE(R24, n16), V<2416>> && Same<Bare<decltype(R24::n16)>, json_::R24Impl::n16> && Same<Bare<decltype(std::declval<R24 &>()[R24::n16])>, V<2416>>, "pair 16 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n17::ValueType, V<2417>> && Same<JSON_VALUE_TYPE(R24, n17), V<2417>> && Same<Bare<decltype(R24::n17)>, json_::R24Impl::n17> && Same<Bare<decltype(std::declval<R24 &>()[R24::n17])>, V<2417>>, "pair 17 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n18::ValueType, V<2418>> && Same<JSON_VALUE_TYPE(R24, n18), V<2418>> && Same<Bare<decltype(R24::n18)>, json_::R24Impl::n18> && Same<Bare<decltype(std::declval<R24 &>()[R24::n18])>, V<2418>>, "pair 18 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n19::ValueType, V<2419>> && Same<JSON_VALUE_TYPE(R24, n19), V<2419>> && Same<Bare<decltype(R24::n19)>, json_::R24Impl::n19> && Same<Bare<decltype(std::declval<R24 &>()[R24::n19])>, V<2419>>, "pair 19 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n20::ValueType, V<2420>> && Same<JSON_VALUE_TYPE(R24, n20), V<2420>> && Same<Bare<decltype(R24::n20)>, json_::R24Impl::n20> && Same<Bare<decltype(std::declval<R24 &>()[R24::n20])>, V<2420>>, "pair 20 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n21::ValueType, V<2421>> && Same<JSON_VALUE_TYPE(R24, n21), V<2421>> && Same<Bare<decltype(R24::n21)>, json_::R24Impl::n21> && Same<Bare<decltype(std::declval<R24 &>()[R24::n21])>, V<2421>>, "pair 21 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n22::ValueType, V<2422>> && Same<JSON_VALUE_TYPE(R24, n22), V<2422>> && Same<Bare<decltype(R24::n22)>, json_::R24Impl::n22> && Same<Bare<decltype(std::declval<R24 &>()[R24::n22])>, V<2422>>, "pair 22 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n23::ValueType, V<2423>> && Same<JSON_VALUE_TYPE(R24, n23), V<2423>> && Same<Bare<decltype(R24::n23)>, json_::R24Impl::n23> && Same<Bare<decltype(std::declval<R24 &>()[R24::n23])>, V<2423>>, "pair 23 of 24 does not have its type");
static_assert(Same<json_::R24Impl::n24::ValueType, std::pair<V<24>, V<24>>> && Same<JSON_VALUE_TYPE(R24, n24), std::pair<V<24>, V<24>>> && Same<Bare<decltype(R24::n24)>, json_::R24Impl::n24> && Same<Bare<decltype(std::declval<R24 &>()[R24::n24])>, std::pair<V<24>, V<24>>>, "pair 24 of 24 does not have its type");
static_assert(Is<R24, json_::R24Impl::Base> && Is<json::Traits<R24>, json::Traits<json_::R24Impl::Base>> && Is<R24, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R25Impl::Base>::Type, std::tuple<json_::R25Impl::n1, json_::R25Impl::n2, json_::R25Impl::n3, json_::R25Impl::n4, json_::R25Impl::n5, json_::R25Impl::n6, json_::R25Impl::n7, json_::R25Impl::n8, json_::R25Impl::n9, json_::R25Impl::n10, json_::R25Impl::n11, json_::R25Impl::n12, json_::R25Impl::n13, json_::R25Impl::n14, json_::R25Impl::n15, json_::R25Impl::n16, json_::R25Impl::n17, json_::R25Impl::n18, json_::R25Impl::n19, json_::R25Impl::n20, json_::R25Impl::n21, json_::R25Impl::n22, json_::R25Impl::n23, json_::R25Impl::n24, json_::R25Impl::n25>>, "the cells of an object are not its 25 pairs in order");
static_assert(Same<json_::R25Impl::n1::ValueType, std::pair<V<25>, V<1>>> && Same<JSON_VALUE_TYPE(R25, n1), std::pair<V<25>, V<1>>> && Same<Bare<decltype(R25::n1)>, json_::R25Impl::n1> && Same<Bare<decltype(std::declval<R25 &>()[R25::n1])>, std::pair<V<25>, V<1>>>, "pair 1 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n2::ValueType, V<2502>> && Same<JSON_VALUE_TYPE(R25, n2), V<2502>> && Same<Bare<decltype(R25::n2)>, json_::R25Impl::n2> && Same<Bare<decltype(std::declval<R25 &>()[R25::n2])>, V<2502>>, "pair 2 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n3::ValueType, V<2503>> && Same<JSON_VALUE_TYPE(R25, n3), V<2503>> && Same<Bare<decltype(R25::n3)>, json_::R25Impl::n3> && Same<Bare<decltype(std::declval<R25 &>()[R25::n3])>, V<2503>>, "pair 3 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n4::ValueType, V<2504>> && Same<JSON_VALUE_TYPE(R25, n4), V<2504>> && Same<Bare<decltype(R25::n4)>, json_::R25Impl::n4> && Same<Bare<decltype(std::declval<R25 &>()[R25::n4])>, V<2504>>, "pair 4 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n5::ValueType, V<2505>> && Same<JSON_VALUE_TYPE(R25, n5), V<2505>> && Same<Bare<decltype(R25::n5)>, json_::R25Impl::n5> && Same<Bare<decltype(std::declval<R25 &>()[R25::n5])>, V<2505>>, "pair 5 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n6::ValueType, V<2506>> && Same<JSON_VALUE_TYPE(R25, n6), V<2506>> && Same<Bare<decltype(R25::n6)>, json_::R25Impl::n6> && Same<Bare<decltype(std::declval<R25 &>()[R25::n6])>, V<2506>>, "pair 6 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n7::ValueType, V<2507>> && Same<JSON_VALUE_TYPE(R25, n7), V<2507>> && Same<Bare<decltype(R25::n7)>, json_::R25Impl::n7> && Same<Bare<decltype(std::declval<R25 &>()[R25::n7])>, V<2507>>, "pair 7 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n8::ValueType, V<2508>> && Same<JSON_VALUE_TYPE(R25, n8), V<2508>> && Same<Bare<decltype(R25::n8)>, json_::R25Impl::n8> && Same<Bare<decltype(std::declval<R25 &>()[R25::n8])>, V<2508>>, "pair 8 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n9::ValueType, V<2509>> && Same<JSON_VALUE_TYPE(R25, n9), V<2509>> && Same<Bare<decltype(R25::n9)>, json_::R25Impl::n9> && Same<Bare<decltype(std::declval<R25 &>()[R25::n9])>, V<2509>>, "pair 9 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n10::ValueType, V<2510>> && Same<JSON_VALUE_TYPE(R25, n10), V<2510>> && Same<Bare<decltype(R25::n10)>, json_::R25Impl::n10> && Same<Bare<decltype(std::declval<R25 &>()[R25::n10])>, V<2510>>, "pair 10 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n11::ValueType, V<2511>> && Same<JSON_VALUE_TYPE(R25, n11), V<2511>> && Same<Bare<decltype(R25::n11)>, json_::R25Impl::n11> && Same<Bare<decltype(std::declval<R25 &>()[R25::n11])>, V<2511>>, "pair 11 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n12::ValueType, std::pair<V<25>, V<12>>> && Same<JSON_VALUE_TYPE(R25, n12), std::pair<V<25>, V<12>>> && Same<Bare<decltype(R25::n12)>, json_::R25Impl::n12> && Same<Bare<decltype(std::declval<R25 &>()[R25::n12])>, std::pair<V<25>, V<12>>>, "pair 12 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n13::ValueType, V<2513>> && Same<JSON_VALUE_TYPE(R25, n13), V<2513>> && Same<Bare<decltype(R25::n13)>, json_::R25Impl::n13> && Same<Bare<decltype(std::declval<R25 &>()[R25::n13])>, V<2513>>, "pair 13 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n14::ValueType, V<2514>> && Same<JSON_VALUE_TYPE(R25, n14), V<2514>> && Same<Bare<decltype(R25::n14)>, json_::R25Impl::n14> && Same<Bare<decltype(std::declval<R25 &>()[R25::n14])>, V<2514>>, "pair 14 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n15::ValueType, V<2515>> && Same<JSON_VALUE_TYPE(R25, n15), V<2515>> && Same<Bare<decltype(R25::n15)>, json_::R25Impl::n15> && Same<Bare<decltype(std::declval<R25 &>()[R25::n15])>, V<2515>>, "pair 15 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n16::ValueType, V<2516>> && Same<JSON_VALUE_TYPE(R25, n16), V<2516>> && Same<Bare<decltype(R25::n16)>, json_::R25Impl::n16> && Same<Bare<decltype(std::declval<R25 &>()[R25::n16])>, V<2516>>, "pair 16 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n17::ValueType, V<2517>> && Same<JSON_VALUE_TYPE(R25, n17), V<2517>> && Same<Bare<decltype(R25::n17)>, json_::R25Impl::n17> && Same<Bare<decltype(std::declval<R25 &>()[R25::n17])>, V<2517>>, "pair 17 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n18::ValueType, V<2518>> && Same<JSON_VALUE_TYPE(R25, n18), V<2518>> && Same<Bare<decltype(R25::n18)>, json_::R25Impl::n18> && Same<Bare<decltype(std::declval<R25 &>()[R25::n18])>, V<2518>>, "pair 18 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n19::ValueType, V<2519>> && Same<JSON_VALUE_TYPE(R25, n19), V<2519>> && Same<Bare<decltype(R25::n19)>, json_::R25Impl::n19> && Same<Bare<decltype(std::declval<R25 &>()[R25::n19])>, V<2519>>, "pair 19 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n20::ValueType, V<2520>> && Same<JSON_VALUE_TYPE(R25, n20), V<2520>> && Same<Bare<decltype(R25::n20)>, json_::R25Impl::n20> && Same<Bare<decltype(std::declval<R25 &>()[R25::n20])>, V<2520>>, "pair 20 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n21::ValueType, V<2521>> && Same<JSON_VALUE_TYPE(R25, n21), V<2521>> && Same<Bare<decltype(R25::n21)>, json_::R25Impl::n21> && Same<Bare<decltype(std::declval<R25 &>()[R25::n21])>, V<2521>>, "pair 21 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n22::ValueType, V<2522>> && Same<JSON_VALUE_TYPE(R25, n22), V<2522>> && Same<Bare<decltype(R25::n22)>, json_::R25Impl::n22> && Same<Bare<decltype(std::declval<R25 &>()[R25::n22])>, V<2522>>, "pair 22 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n23::ValueType, V<2523>> && Same<JSON_VALUE_TYPE(R25, n23), V<2523>> && Same<Bare<decltype(R25::n23)>, json_::R25Impl::n23> && Same<Bare<decltype(std::declval<R25 &>()[R25::n23])>, V<2523>>, "pair 23 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n24::ValueType, V<2524>> && Same<JSON_VALUE_TYPE(R25, n24), V<2524>> && Same<Bare<decltype(R25::n24)>, json_::R25Impl::n24> && Same<Bare<decltype(std::declval<R25 &>()[R25::n24])>, V<2524>>, "pair 24 of 25 does not have its type");
static_assert(Same<json_::R25Impl::n25::ValueType, std::pair<V<25>, V<25>>> && Same<JSON_VALUE_TYPE(R25, n25), std::pair<V<25>, V<25>>> && Same<Bare<decltype(R25::n25)>, json_::R25Impl::n25> && Same<Bare<decltype(std::declval<R25 &>()[R25::n25])>, std::pair<V<25>, V<25>>>, "pair 25 of 25 does not have its type");
static_assert(Is<R25, json_::R25Impl::Base> && Is<json::Traits<R25>, json::Traits<json_::R25Impl::Base>> && Is<R25, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R26Impl::Base>::Type, std::tuple<json_::R26Impl::n1, json_::R26Impl::n2, json_::R26Impl::n3, json_::R26Impl::n4, json_::R26Impl::n5, json_::R26Impl::n6, json_::R26Impl::n7, json_::R26Impl::n8, json_::R26Impl::n9, json_::R26Impl::n10, json_::R26Impl::n11, json_::R26Impl::n12, json_::R26Impl::n13, json_::R26Impl::n14, json_::R26Impl::n15, json_::R26Impl::n16, json_::R26Impl::n17, json_::R26Impl::n18, json_::R26Impl::n19, json_::R26Impl::n20, json_::R26Impl::n21, json_::R26Impl::n22, json_::R26Impl::n23, json_::R26Impl::n24, json_::R26Impl::n25, json_::R26Impl::n26>>, "the cells of an object are not its 26 pairs in order");
static_assert(Same<json_::R26Impl::n1::ValueType, std::pair<V<26>, V<1>>> && Same<JSON_VALUE_TYPE(R26, n1), std::pair<V<26>, V<1>>> && Same<Bare<decltype(R26::n1)>, json_::R26Impl::n1> && Same<Bare<decltype(std::declval<R26 &>()[R26::n1])>, std::pair<V<26>, V<1>>>, "pair 1 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n2::ValueType, V<2602>> && Same<JSON_VALUE_TYPE(R26, n2), V<2602>> && Same<Bare<decltype(R26::n2)>, json_::R26Impl::n2> && Same<Bare<decltype(std::declval<R26 &>()[R26::n2])>, V<2602>>, "pair 2 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n3::ValueType, V<2603>> && Same<JSON_VALUE_TYPE(R26, n3), V<2603>> && Same<Bare<decltype(R26::n3)>, json_::R26Impl::n3> && Same<Bare<decltype(std::declval<R26 &>()[R26::n3])>, V<2603>>, "pair 3 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n4::ValueType, V<2604>> && Same<JSON_VALUE_TYPE(R26, n4), V<2604>> && Same<Bare<decltype(R26::n4)>, json_::R26Impl::n4> && Same<Bare<decltype(std::declval<R26 &>()[R26::n4])>, V<2604>>, "pair 4 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n5::ValueType, V<2605>> && Same<JSON_VALUE_TYPE(R26, n5), V<2605>> && Same<Bare<decltype(R26::n5)>, json_::R26Impl::n5> && Same<Bare<decltype(std::declval<R26 &>()[R26::n5])>, V<2605>>, "pair 5 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n6::ValueType, V<2606>> && Same<JSON_VALUE_TYPE(R26, n6), V<2606>> && Same<Bare<decltype(R26::n6)>, json_::R26Impl::n6> && Same<Bare<decltype(std::declval<R26 &>()[R26::n6])>, V<2606>>, "pair 6 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n7::ValueType, V<2607>> && Same<JSON_VALUE_TYPE(R26, n7), V<2607>> && Same<Bare<decltype(R26::n7)>, json_::R26Impl::n7> && Same<Bare<decltype(std::declval<R26 &>()[R26::n7])>, V<2607>>, "pair 7 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n8::ValueType, V<2608>> && Same<JSON_VALUE_TYPE(R26, n8), V<2608>> && Same<Bare<decltype(R26::n8)>, json_::R26Impl::n8> && Same<Bare<decltype(std::declval<R26 &>()[R26::n8])>, V<2608>>, "pair 8 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n9::ValueType, V<2609>> && Same<JSON_VALUE_TYPE(R26, n9), V<2609>> && Same<Bare<decltype(R26::n9)>, json_::R26Impl::n9> && Same<Bare<decltype(std::declval<R26 &>()[R26::n9])>, V<2609>>, "pair 9 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n10::ValueType, V<2610>> && Same<JSON_VALUE_TYPE(R26, n10), V<2610>> && Same<Bare<decltype(R26::n10)>, json_::R26Impl::n10> && Same<Bare<decltype(std::declval<R26 &>()[R26::n10])>, V<2610>>, "pair 10 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n11::ValueType, V<2611>> && Same<JSON_VALUE_TYPE(R26, n11), V<2611>> && Same<Bare<decltype(R26::n11)>, json_::R26Impl::n11> && Same<Bare<decltype(std::declval<R26 &>()[R26::n11])>, V<2611>>, "pair 11 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n12::ValueType, V<2612>> && Same<JSON_VALUE_TYPE(R26, n12), V<2612>> && Same<Bare<decltype(R26::n12)>, json_::R26Impl::n12> && Same<Bare<decltype(std::declval<R26 &>()[R26::n12])>, V<2612>>, "pair 12 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n13::ValueType, std::pair<V<26>, V<13>>> && Same<JSON_VALUE_TYPE(R26, n13), std::pair<V<26>, V<13>>> && Same<Bare<decltype(R26::n13)>, json_::R26Impl::n13> && Same<Bare<decltype(std::declval<R26 &>()[R26::n13])>, std::pair<V<26>, V<13>>>, "pair 13 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n14::ValueType, V<2614>> && Same<JSON_VALUE_TYPE(R26, n14), V<2614>> && Same<Bare<decltype(R26::n14)>, json_::R26Impl::n14> && Same<Bare<decltype(std::declval<R26 &>()[R26::n14])>, V<2614>>, "pair 14 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n15::ValueType, V<2615>> && Same<JSON_VALUE_TYPE(R26, n15), V<2615>> && Same<Bare<decltype(R26::n15)>, json_::R26Impl::n15> && Same<Bare<decltype(std::declval<R26 &>()[R26::n15])>, V<2615>>, "pair 15 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n16::ValueType, V<2616>> && Same<JSON_VALUE_TYPE(R26, n16), V<2616>> && Same<Bare<decltype(R26::n16)>, json_::R26Impl::n16> && Same<Bare<decltype(std::declval<R26 &>()[R26::n16])>, V<2616>>, "pair 16 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n17::ValueType, V<2617>> && Same<JSON_VALUE_TYPE(R26, n17), V<2617>> && Same<Bare<decltype(R26::n17)>, json_::R26Impl::n17> && Same<Bare<decltype(std::declval<R26 &>()[R26::n17])>, V<2617>>, "pair 17 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n18::ValueType, V<2618>> && Same<JSON_VALUE_TYPE(R26, n18), V<2618>> && Same<Bare<decltype(R26::n18)>, json_::R26Impl::n18> && Same<Bare<decltype(std::declval<R26 &>()[R26::n18])>, V<2618>>, "pair 18 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n19::ValueType, V<2619>> && Same<JSON_VALUE_TYPE(R26, n19), V<2619>> && Same<Bare<decltype(R26::n19)>, json_::R26Impl::n19> && Same<Bare<decltype(std::declval<R26 &>()[R26::n19])>, V<2619>>, "pair 19 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n20::ValueType, V<2620>> && Same<JSON_VALUE_TYPE(R26, n20), V<2620>> && Same<Bare<decltype(R26::n20)>, json_::R26Impl::n20> && Same<Bare<decltype(std::declval<R26 &>()[R26::n20])>, V<2620>>, "pair 20 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n21::ValueType, V<2621>> && Same<JSON_VALUE_TYPE(R26, n21), V<2621>> && Same<Bare<decltype(R26::n21)>, json_::R26Impl::n21> && Same<Bare<decltype(std::declval<R26 &>()[R26::n21])>, V<2621>>, "pair 21 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n22::ValueType, V<2622>> && Same<JSON_VALUE_TYPE(R26, n22), V<2622>> && Same<Bare<decltype(R26::n22)>, json_::R26Impl::n22> && Same<Bare<decltype(std::declval<R26 &>()[R26::n22])>, V<2622>>, "pair 22 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n23::ValueType, V<2623>> && Same<JSON_VALUE_TYPE(R26, n23), V<2623>> && Same<Bare<decltype(R26::n23)>, json_::R26Impl::n23> && Same<Bare<decltype(std::declval<R26 &>()[R26::n23])>, V<2623>>, "pair 23 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n24::ValueType, V<2624>> && Same<JSON_VALUE_TYPE(R26, n24), V<2624>> && Same<Bare<decltype(R26::n24)>, json_::R26Impl::n24> && Same<Bare<decltype(std::declval<R26 &>()[R26::n24])>, V<2624>>, "pair 24 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n25::ValueType, V<2625>> && Same<JSON_VALUE_TYPE(R26, n25), V<2625>> && Same<Bare<decltype(R26::n25)>, json_::R26Impl::n25> && Same<Bare<decltype(std::declval<R26 &>()[R26::n25])>, V<2625>>, "pair 25 of 26 does not have its type");
static_assert(Same<json_::R26Impl::n26::ValueType, std::pair<V<26>, V<26>>> && Same<JSON_VALUE_TYPE(R26, n26), std::pair<V<26>, V<26>>> && Same<Bare<decltype(R26::n26)>, json_::R26Impl::n26> && Same<Bare<decltype(std::declval<R26 &>()[R26::n26])>, std::pair<V<26>, V<26>>>, "pair 26 of 26 does not have its type");
static_assert(Is<R26, json_::R26Impl::Base> && Is<json::Traits<R26>, json::Traits<json_::R26Impl::Base>> && Is<R26, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R27Impl::Base>::Type, std::tuple<json_::R27Impl::n1, json_::R27Impl::n2, json_::R27Impl::n3, json_::R27Impl::n4, json_::R27Impl::n5, json_::R27Impl::n6, json_::R27Impl::n7, json_::R27Impl::n8, json_::R27Impl::n9, json_::R27Impl::n10, json_::R27Impl::n11, json_::R27Impl::n12, json_::R27Impl::n13, json_::R27Impl::n14, json_::R27Impl::n15, json_::R27Impl::n16, json_::R27Impl::n17, json_::R27Impl::n18, json_::R27Impl::n19, json_::R27Impl::n20, json_::R27Impl::n21, json_::R27Impl::n22, json_::R27Impl::n23, json_::R27Impl::n24, json_::R27Impl::n25, json_::R27Impl::n26, json_::R27Impl::n27>>, "the cells of an object are not its 27 pairs in order");
static_assert(Same<json_::R27Impl::n1::ValueType, std::pair<V<27>, V<1>>> && Same<JSON_VALUE_TYPE(R27, n1), std::pair<V<27>, V<1>>> && Same<Bare<decltype(R27::n1)>, json_::R27Impl::n1> && Same<Bare<decltype(std::declval<R27 &>()[R27::n1])>, std::pair<V<27>, V<1>>>, "pair 1 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n2::ValueType, V<2702>> && Same<JSON_VALUE_TYPE(R27, n2), V<2702>> && Same<Bare<decltype(R27::n2)>, json_::R27Impl::n2> && Same<Bare<decltype(std::declval<R27 &>()[R27::n2])>, V<2702>>, "pair 2 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n3::ValueType, V<2703>> && Same<JSON_VALUE_TYPE(R27, n3), V<2703>> && Same<Bare<decltype(R27::n3)>, json_::R27Impl::n3> && Same<Bare<decltype(std::declval<R27 &>()[R27::n3])>, V<2703>>, "pair 3 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n4::ValueType, V<2704>> && Same<JSON_VALUE_TYPE(R27, n4), V<2704>> && Same<Bare<decltype(R27::n4)>, json_::R27Impl::n4> && Same<Bare<decltype(std::declval<R27 &>()[R27::n4])>, V<2704>>, "pair 4 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n5::ValueType, V<2705>> && Same<JSON_VALUE_TYPE(R27, n5), V<2705>> && Same<Bare<decltype(R27::n5)>, json_::R27Impl::n5> && Same<Bare<decltype(std::declval<R27 &>()[R27::n5])>, V<2705>>, "pair 5 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n6::ValueType, V<2706>> && Same<JSON_VALUE_TYPE(R27, n6), V<2706>> && Same<Bare<decltype(R27::n6)>, json_::R27Impl::n6> && Same<Bare<decltype(std::declval<R27 &>()[R27::n6])>, V<2706>>, "pair 6 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n7::ValueType, V<2707>> && Same<JSON_VALUE_TYPE(R27, n7), V<2707>> && Same<Bare<decltype(R27::n7)>, json_::R27Impl::n7> && Same<Bare<decltype(std::declval<R27 &>()[R27::n7])>, V<2707>>, "pair 7 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n8::ValueType, V<2708>> && Same<JSON_VALUE_TYPE(R27, n8), V<2708>> && Same<Bare<decltype(R27::n8)>, json_::R27Impl::n8> && Same<Bare<decltype(std::declval<R27 &>()[R27::n8])>, V<2708>>, "pair 8 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n9::ValueType, V<2709>> && Same<JSON_VALUE_TYPE(R27, n9), V<2709>> && Same<Bare<decltype(R27::n9)>, json_::R27Impl::n9> && Same<Bare<decltype(std::declval<R27 &>()[R27::n9])>, V<2709>>, "pair 9 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n10::ValueType, V<2710>> && Same<JSON_VALUE_TYPE(R27, n10), V<2710>> && Same<Bare<decltype(R27::n10)>, json_::R27Impl::n10> && Same<Bare<decltype(std::declval<R27 &>()[R27::n10])>, V<2710>>, "pair 10 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n11::ValueType, V<2711>> && Same<JSON_VALUE_TYPE(R27, n11), V<2711>> && Same<Bare<decltype(R27::n11)>, json_::R27Impl::n11> && Same<Bare<decltype(std::declval<R27 &>()[R27::n11])>, V<2711>>, "pair 11 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n12::ValueType, V<2712>> && Same<JSON_VALUE_TYPE(R27, n12), V<2712>> && Same<Bare<decltype(R27::n12)>, json_::R27Impl::n12> && Same<Bare<decltype(std::declval<R27 &>()[R27::n12])>, V<2712>>, "pair 12 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n13::ValueType, std::pair<V<27>, V<13>>> && Same<JSON_VALUE_TYPE(R27, n13), std::pair<V<27>, V<13>>> && Same<Bare<decltype(R27::n13)>, json_::R27Impl::n13> && Same<Bare<decltype(std::declval<R27 &>()[R27::n13])>, std::pair<V<27>, V<13>>>, "pair 13 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n14::ValueType, V<2714>> && Same<JSON_VALUE_TYPE(R27, n14), V<2714>> && Same<Bare<decltype(R27::n14)>, json_::R27Impl::n14> && Same<Bare<decltype(std::declval<R27 &>()[R27::n14])>, V<2714>>, "pair 14 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n15::ValueType, V<2715>> && Same<JSON_VALUE_TYPE(R27, n15), V<2715>> && Same<Bare<decltype(R27::n15)>, json_::R27Impl::n15> && Same<Bare<decltype(std::declval<R27 &>()[R27::n15])>, V<2715>>, "pair 15 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n16::ValueType, V<2716>> && Same<JSON_VALUE_TYPE(R27, n16), V<2716>> && Same<Bare<decltype(R27::n16)>, json_::R27Impl::n16> && Same<Bare<decltype(std::declval<R27 &>()[R27::n16])>, V<2716>>, "pair 16 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n17::ValueType, V<2717>> && Same<JSON_VALUE_TYPE(R27, n17), V<2717>> && Same<Bare<decltype(R27::n17)>, json_::R27Impl::n17> && Same<Bare<decltype(std::declval<R27 &>()[R27::n17])>, V<2717>>, "pair 17 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n18::ValueType, V<2718>> && Same<JSON_VALUE_TYPE(R27, n18), V<2718>> && Same<Bare<decltype(R27::n18)>, json_::R27Impl::n18> && Same<Bare<decltype(std::declval<R27 &>()[R27::n18])>, V<2718>>, "pair 18 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n19::ValueType, V<2719>> && Same<JSON_VALUE_TYPE(R27, n19), V<2719>> && Same<Bare<decltype(R27::n19)>, json_::R27Impl::n19> && Same<Bare<decltype(std::declval<R27 &>()[R27::n19])>, V<2719>>, "pair 19 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n20::ValueType, V<2720>> && Same<JSON_VALUE_TYPE(R27, n20), V<2720>> && Same<Bare<decltype(R27::n20)>, json_::R27Impl::n20> && Same<Bare<decltype(std::declval<R27 &>()[R27::n20])>, V<2720>>, "pair 20 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n21::ValueType, V<2721>> && Same<JSON_VALUE_TYPE(R27, n21), V<2721>> && Same<Bare<decltype(R27::n21)>, json_::R27Impl::n21> && Same<Bare<decltype(std::declval<R27 &>()[R27::n21])>, V<2721>>, "pair 21 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n22::ValueType, V<2722>> && Same<JSON_VALUE_TYPE(R27, n22), V<2722>> && Same<Bare<decltype(R27::n22)>, json_::R27Impl::n22> && Same<Bare<decltype(std::declval<R27 &>()[R27::n22])>, V<2722>>, "pair 22 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n23::ValueType, V<2723>> && Same<JSON_VALUE_TYPE(R27, n23), V<2723>> && Same<Bare<decltype(R27::n23)>, json_::R27Impl::n23> && Same<Bare<decltype(std::declval<R27 &>()[R27::n23])>, V<2723>>, "pair 23 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n24::ValueType, V<2724>> && Same<JSON_VALUE_TYPE(R27, n24), V<2724>> && Same<Bare<decltype(R27::n24)>, json_::R27Impl::n24> && Same<Bare<decltype(std::declval<R27 &>()[R27::n24])>, V<2724>>, "pair 24 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n25::ValueType, V<2725>> && Same<JSON_VALUE_TYPE(R27, n25), V<2725>> && Same<Bare<decltype(R27::n25)>, json_::R27Impl::n25> && Same<Bare<decltype(std::declval<R27 &>()[R27::n25])>, V<2725>>, "pair 25 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n26::ValueType, V<2726>> && Same<JSON_VALUE_TYPE(R27, n26), V<2726>> && Same<Bare<decltype(R27::n26)>, json_::R27Impl::n26> && Same<Bare<decltype(std::declval<R27 &>()[R27::n26])>, V<2726>>, "pair 26 of 27 does not have its type");
static_assert(Same<json_::R27Impl::n27::ValueType, std::pair<V<27>, V<27>>> && Same<JSON_VALUE_TYPE(R27, n27), std::pair<V<27>, V<27>>> && Same<Bare<decltype(R27::n27)>, json_::R27Impl::n27> && Same<Bare<decltype(std::declval<R27 &>()[R27::n27])>, std::pair<V<27>, V<27>>>, "pair 27 of 27 does not have its type");
static_assert(Is<R27, json_::R27Impl::Base> && Is<json::Traits<R27>, json::Traits<json_::R27Impl::Base>> && Is<R27, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R28Impl::Base>::Type, std::tuple<json_::R28Impl::n1, json_::R28Impl::n2, json_::R28Impl::n3, json_::R28Impl::n4, json_::R28Impl::n5, json_::R28Impl::n6, json_::R28Impl::n7, json_::R28Impl::n8, json_::R28Impl::n9, json_::R28Impl::n10, json_::R28Impl::n11, json_::R28Impl::n12, json_::R28Impl::n13, json_::R28Impl::n14, json_::R28Impl::n15, json_::R28Impl::n16, json_::R28Impl::n17, json_::R28Impl::n18, json_::R28Impl::n19, json_::R28Impl::n20, json_::R28Impl::n21, json_::R28Impl::n22, json_::R28Impl::n23, json_::R28Impl::n24, json_::R28Impl::n25, json_::R28Impl::n26, json_::R28Impl::n27, json_::R28Impl::n28>>, "the cells of an object are not its 28 pairs in order");
static_assert(Same<json_::R28Impl::n1::ValueType, std::pair<V<28>, V<1>>> && Same<JSON_VALUE_TYPE(R28, n1), std::pair<V<28>, V<1>>> && Same<Bare<decltype(R28::n1)>, json_::R28Impl::n1> && Same<Bare<decltype(std::declval<R28 &>()[R28::n1])>, std::pair<V<28>, V<1>>>, "pair 1 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n2::ValueType, V<2802>> && Same<JSON_VALUE_TYPE(R28, n2), V<2802>> && Same<Bare<decltype(R28::n2)>, json_::R28Impl::n2> && Same<Bare<decltype(std::declval<R28 &>()[R28::n2])>, V<2802>>, "pair 2 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n3::ValueType, V<2803>> && Same<JSON_VALUE_TYPE(R28, n3), V<2803>> && Same<Bare<decltype(R28::n3)>, json_::R28Impl::n3> && Same<Bare<decltype(std::declval<R28 &>()[R28::n3])>, V<2803>>, "pair 3 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n4::ValueType, V<2804>> && Same<JSON_VALUE_TYPE(R28, n4), V<2804>> && Same<Bare<decltype(R28::n4)>, json_::R28Impl::n4> && Same<Bare<decltype(std::declval<R28 &>()[R28::n4])>, V<2804>>, "pair 4 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n5::ValueType, V<2805>> && Same<JSON_VALUE_TYPE(R28, n5), V<2805>> && Same<Bare<decltype(R28::n5)>, json_::R28Impl::n5> && Same<Bare<decltype(std::declval<R28 &>()[R28::n5])>, V<2805>>, "pair 5 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n6::ValueType, V<2806>> && Same<JSON_VALUE_TYPE(R28, n6), V<2806>> && Same<Bare<decltype(R28::n6)>, json_::R28Impl::n6> && Same<Bare<decltype(std::declval<R28 &>()[R28::n6])>, V<2806>>, "pair 6 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n7::ValueType, V<2807>> && Same<JSON_VALUE_TYPE(R28, n7), V<2807>> && Same<Bare<decltype(R28::n7)>, json_::R28Impl::n7> && Same<Bare<decltype(std::declval<R28 &>()[R28::n7])>, V<2807>>, "pair 7 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n8::ValueType, V<2808>> && Same<JSON_VALUE_TYPE(R28, n8), V<2808>> && Same<Bare<decltype(R28::n8)>, json_::R28Impl::n8> && Same<Bare<decltype(std::declval<R28 &>()[R28::n8])>, V<2808>>, "pair 8 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n9::ValueType, V<2809>> && Same<JSON_VALUE_TYPE(R28, n9), V<2809>> && Same<Bare<decltype(R28::n9)>, json_::R28Impl::n9> && Same<Bare<decltype(std::declval<R28 &>()[R28::n9])>, V<2809>>, "pair 9 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n10::ValueType, V<2810>> && Same<JSON_VALUE_TYPE(R28, n10), V<2810>> && Same<Bare<decltype(R28::n10)>, json_::R28Impl::n10> && Same<Bare<decltype(std::declval<R28 &>()[R28::n10])>, V<2810>>, "pair 10 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n11::ValueType, V<2811>> && Same<JSON_VALUE_TYPE(R28, n11), V<2811>> && Same<Bare<decltype(R28::n11)>, json_::R28Impl::n11> && Same<Bare<decltype(std::declval<R28 &>()[R28::n11])>, V<2811>>, "pair 11 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n12::ValueType, V<2812>> && Same<JSON_VALUE_TYPE(R28, n12), V<2812>> && Same<Bare<decltype(R28::n12)>, json_::R28Impl::n12> && Same<Bare<decltype(std::declval<R28 &>()[R28::n12])>, V<2812>>, "pair 12 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n13::ValueType, V<2813>> && Same<JSON_VALUE_TYPE(R28, n13), V<2813>> && Same<Bare<decltype(R28::n13)>, json_::R28Impl::n13> && Same<Bare<decltype(std::declval<R28 &>()[R28::n13])>, V<2813>>, "pair 13 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n14::ValueType, std::pair<V<28>, V<14>>> && Same<JSON_VALUE_TYPE(R28, n14), std::pair<V<28>, V<14>>> && Same<Bare<decltype(R28::n14)>, json_::R28Impl::n14> && Same<Bare<decltype(std::declval<R28 &>()[R28::n14])>, std::pair<V<28>, V<14>>>, "pair 14 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n15::ValueType, V<2815>> && Same<JSON_VALUE_TYPE(R28, n15), V<2815>> && Same<Bare<decltype(R28::n15)>, json_::R28Impl::n15> && Same<Bare<decltype(std::declval<R28 &>()[R28::n15])>, V<2815>>, "pair 15 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n16::ValueType, V<2816>> && Same<JSON_VALUE_TYPE(R28, n16), V<2816>> && Same<Bare<decltype(R28::n16)>, json_::R28Impl::n16> && Same<Bare<decltype(std::declval<R28 &>()[R28::n16])>, V<2816>>, "pair 16 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n17::ValueType, V<2817>> && Same<JSON_VALUE_TYPE(R28, n17), V<2817>> && Same<Bare<decltype(R28::n17)>, json_::R28Impl::n17> && Same<Bare<decltype(std::declval<R28 &>()[R28::n17])>, V<2817>>, "pair 17 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n18::ValueType, V<2818>> && Same<JSON_VALUE_TYPE(R28, n18), V<2818>> && Same<Bare<decltype(R28::n18)>, json_::R28Impl::n18> && Same<Bare<decltype(std::declval<R28 &>()[R28::n18])>, V<2818>>, "pair 18 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n19::ValueType, V<2819>> && Same<JSON_VALUE_TYPE(R28, n19), V<2819>> && Same<Bare<decltype(R28::n19)>, json_::R28Impl::n19> && Same<Bare<decltype(std::declval<R28 &>()[R28::n19])>, V<2819>>, "pair 19 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n20::ValueType, V<2820>> && Same<JSON_VALUE_TYPE(R28, n20), V<2820>> && Same<Bare<decltype(R28::n20)>, json_::R28Impl::n20> && Same<Bare<decltype(std::declval<R28 &>()[R28::n20])>, V<2820>>, "pair 20 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n21::ValueType, V<2821>> && Same<JSON_VALUE_TYPE(R28, n21), V<2821>> && Same<Bare<decltype(R28::n21)>, json_::R28Impl::n21> && Same<Bare<decltype(std::declval<R28 &>()[R28::n21])>, V<2821>>, "pair 21 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n22::ValueType, V<2822>> && Same<JSON_VALUE_TYPE(R28, n22), V<2822>> && Same<Bare<decltype(R28::n22)>, json_::R28Impl::n22> && Same<Bare<decltype(std::declval<R28 &>()[R28::n22])>, V<2822>>, "pair 22 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n23::ValueType, V<2823>> && Same<JSON_VALUE_TYPE(R28, n23), V<2823>> && Same<Bare<decltype(R28::n23)>, json_::R28Impl::n23> && Same<Bare<decltype(std::declval<R28 &>()[R28::n23])>, V<2823>>, "pair 23 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n24::ValueType, V<2824>> && Same<JSON_VALUE_TYPE(R28, n24), V<2824>> && Same<Bare<decltype(R28::n24)>, json_::R28Impl::n24> && Same<Bare<decltype(std::declval<R28 &>()[R28::n24])>, V<2824>>, "pair 24 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n25::ValueType, V<2825>> && Same<JSON_VALUE_TYPE(R28, n25), V<2825>> && Same<Bare<decltype(R28::n25)>, json_::R28Impl::n25> && Same<Bare<decltype(std::declval<R28 &>()[R28::n25])>, V<2825>>, "pair 25 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n26::ValueType, V<2826>> && Same<JSON_VALUE_TYPE(R28, n26), V<2826>> && Same<Bare<decltype(R28::n26)>, json_::R28Impl::n26> && Same<Bare<decltype(std::declval<R28 &>()[R28::n26])>, V<2826>>, "pair 26 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n27::ValueType, V<2827>> && Same<JSON_VALUE_TYPE(R28, n27), V<2827>> && Same<Bare<decltype(R28::n27)>, json_::R28Impl::n27> && Same<Bare<decltype(std::declval<R28 &>()[R28::n27])>, V<2827>>, "pair 27 of 28 does not have its type");
static_assert(Same<json_::R28Impl::n28::ValueType, std::pair<V<28>, V<28>>> && Same<JSON_VALUE_TYPE(R28, n28), std::pair<V<28>, V<28>>> && Same<Bare<decltype(R28::n28)>, json_::R28Impl::n28> && Same<Bare<decltype(std::declval<R28 &>()[R28::n28])>, std::pair<V<28>, V<28>>>, "pair 28 of 28 does not have its type");
static_assert(Is<R28, json_::R28Impl::Base> && Is<json::Traits<R28>, json::Traits<json_::R28Impl::Base>> && Is<R28, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R29Impl::Base>::Type, std::tuple<json_::R29Impl::n1, json_::R29Impl::n2, json_::R29Impl::n3, json_::R29Impl::n4, json_::R29Impl::n5, json_::R29Impl::n6, json_::R29Impl::n7, json_::R29Impl::n8, json_::R29Impl::n9, json_::R29Impl::n10, json_::R29Impl::n11, json_::R29Impl::n12, json_::R29Impl::n13, json_::R29Impl::n14, json_::R29Impl::n15, json_::R29Impl::n16, json_::R29Impl::n17, json_::R29Impl::n18, json_::R29Impl::n19, json_::R29Impl::n20, json_::R29Impl::n21, json_::R29Impl::n22, json_::R29Impl::n23, json_::R29Impl::n24, json_::R29Impl::n25, json_::R29Impl::n26, json_::R29Impl::n27, json_::R29Impl::n28, json_::R29Impl::n29>>, "the cells of an object are not its 29 pairs in order");
static_assert(Same<json_::R29Impl::n1::ValueType, std::pair<V<29>, V<1>>> && Same<JSON_VALUE_TYPE(R29, n1), std::pair<V<29>, V<1>>> && Same<Bare<decltype(R29::n1)>, json_::R29Impl::n1> && Same<Bare<decltype(std::declval<R29 &>()[R29::n1])>, std::pair<V<29>, V<1>>>, "pair 1 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n2::ValueType, V<2902>> && Same<JSON_VALUE_TYPE(R29, n2), V<2902>> && Same<Bare<decltype(R29::n2)>, json_::R29Impl::n2> && Same<Bare<decltype(std::declval<R29 &>()[R29::n2])>, V<2902>>, "pair 2 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n3::ValueType, V<2903>> && Same<JSON_VALUE_TYPE(R29, n3), V<2903>> && Same<Bare<decltype(R29::n3)>, json_::R29Impl::n3> && Same<Bare<decltype(std::declval<R29 &>()[R29::n3])>, V<2903>>, "pair 3 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n4::ValueType, V<2904>> && Same<JSON_VALUE_TYPE(R29, n4), V<2904>> && Same<Bare<decltype(R29::n4)>, json_::R29Impl::n4> && Same<Bare<decltype(std::declval<R29 &>()[R29::n4])>, V<2904>>, "pair 4 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n5::ValueType, V<2905>> && Same<JSON_VALUE_TYPE(R29, n5), V<2905>> && Same<Bare<decltype(R29::n5)>, json_::R29Impl::n5> && Same<Bare<decltype(std::declval<R29 &>()[R29::n5])>, V<2905>>, "pair 5 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n6::ValueType, V<2906>> && Same<JSON_VALUE_TYPE(R29, n6), V<2906>> && Same<Bare<decltype(R29::n6)>, json_::R29Impl::n6> && Same<Bare<decltype(std::declval<R29 &>()[R29::n6])>, V<2906>>, "pair 6 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n7::ValueType, V<2907>> && Same<JSON_VALUE_TYPE(R29, n7), V<2907>> && Same<Bare<decltype(R29::n7)>, json_::R29Impl::n7> && Same<Bare<decltype(std::declval<R29 &>()[R29::n7])>, V<2907>>, "pair 7 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n8::ValueType, V<2908>> && Same<JSON_VALUE_TYPE(R29, n8), V<2908>> && Same<Bare<decltype(R29::n8)>, json_::R29Impl::n8> && Same<Bare<decltype(std::declval<R29 &>()[R29::n8])>, V<2908>>, "pair 8 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n9::ValueType, V<2909>> && Same<JSON_VALUE_TYPE(R29, n9), V<2909>> && Same<Bare<decltype(R29::n9)>, json_::R29Impl::n9> && Same<Bare<decltype(std::declval<R29 &>()[R29::n9])>, V<2909>>, "pair 9 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n10::ValueType, V<2910>> && Same<JSON_VALUE_TYPE(R29, n10), V<2910>> && Same<Bare<decltype(R29::n10)>, json_::R29Impl::n10> && Same<Bare<decltype(std::declval<R29 &>()[R29::n10])>, V<2910>>, "pair 10 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n11::ValueType, V<2911>> && Same<JSON_VALUE_TYPE(R29, n11), V<2911>> && Same<Bare<decltype(R29::n11)>, json_::R29Impl::n11> && Same<Bare<decltype(std::declval<R29 &>()[R29::n11])>, V<2911>>, "pair 11 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n12::ValueType, V<2912>> && Same<JSON_VALUE_TYPE(R29, n12), V<2912>> && Same<Bare<decltype(R29::n12)>, json_::R29Impl::n12> && Same<Bare<decltype(std::declval<R29 &>()[R29::n12])>, V<2912>>, "pair 12 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n13::ValueType, V<2913>> && Same<JSON_VALUE_TYPE(R29, n13), V<2913>> && Same<Bare<decltype(R29::n13)>, json_::R29Impl::n13> && Same<Bare<decltype(std::declval<R29 &>()[R29::n13])>, V<2913>>, "pair 13 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n14::ValueType, std::pair<V<29>, V<14>>> && Same<JSON_VALUE_TYPE(R29, n14), std::pair<V<29>, V<14>>> && Same<Bare<decltype(R29::n14)>, json_::R29Impl::n14> && Same<Bare<decltype(std::declval<R29 &>()[R29::n14])>, std::pair<V<29>, V<14>>>, "pair 14 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n15::ValueType, V<2915>> && Same<JSON_VALUE_TYPE(R29, n15), V<2915>> && Same<Bare<decltype(R29::n15)>, json_::R29Impl::n15> && Same<Bare<decltype(std::declval<R29 &>()[R29::n15])>, V<2915>>, "pair 15 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n16::ValueType, V<2916>> && Same<JSON_VALUE_TYPE(R29, n16), V<2916>> && Same<Bare<decltype(R29::n16)>, json_::R29Impl::n16> && Same<Bare<decltype(std::declval<R29 &>()[R29::n16])>, V<2916>>, "pair 16 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n17::ValueType, V<2917>> && Same<JSON_VALUE_TYPE(R29, n17), V<2917>> && Same<Bare<decltype(R29::n17)>, json_::R29Impl::n17> && Same<Bare<decltype(std::declval<R29 &>()[R29::n17])>, V<2917>>, "pair 17 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n18::ValueType, V<2918>> && Same<JSON_VALUE_TYPE(R29, n18), V<2918>> && Same<Bare<decltype(R29::n18)>, json_::R29Impl::n18> && Same<Bare<decltype(std::declval<R29 &>()[R29::n18])>, V<2918>>, "pair 18 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n19::ValueType, V<2919>> && Same<JSON_VALUE_TYPE(R29, n19), V<2919>> && Same<Bare<decltype(R29::n19)>, json_::R29Impl::n19> && Same<Bare<decltype(std::declval<R29 &>()[R29::n19])>, V<2919>>, "pair 19 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n20::ValueType, V<2920>> && Same<JSON_VALUE_TYPE(R29, n20), V<2920>> && Same<Bare<decltype(R29::n20)>, json_::R29Impl::n20> && Same<Bare<decltype(std::declval<R29 &>()[R29::n20])>, V<2920>>, "pair 20 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n21::ValueType, V<2921>> && Same<JSON_VALUE_TYPE(R29, n21), V<2921>> && Same<Bare<decltype(R29::n21)>, json_::R29Impl::n21> && Same<Bare<decltype(std::declval<R29 &>()[R29::n21])>, V<2921>>, "pair 21 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n22::ValueType, V<2922>> && Same<JSON_VALUE_TYPE(R29, n22), V<2922>> && Same<Bare<decltype(R29::n22)>, json_::R29Impl::n22> && Same<Bare<decltype(std::declval<R29 &>()[R29::n22])>, V<2922>>, "pair 22 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n23::ValueType, V<2923>> && Same<JSON_VALUE_TYPE(R29, n23), V<2923>> && Same<Bare<decltype(R29::n23)>, json_::R29Impl::n23> && Same<Bare<decltype(std::declval<R29 &>()[R29::n23])>, V<2923>>, "pair 23 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n24::ValueType, V<2924>> && Same<JSON_VALUE_TYPE(R29, n24), V<2924>> && Same<Bare<decltype(R29::n24)>, json_::R29Impl::n24> && Same<Bare<decltype(std::declval<R29 &>()[R29::n24])>, V<2924>>, "pair 24 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n25::ValueType, V<2925>> && Same<JSON_VALUE_TYPE(R29, n25), V<2925>> && Same<Bare<decltype(R29::n25)>, json_::R29Impl::n25> && Same<Bare<decltype(std::declval<R29 &>()[R29::n25])>, V<2925>>, "pair 25 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n26::ValueType, V<2926>> && Same<JSON_VALUE_TYPE(R29, n26), V<2926>> && Same<Bare<decltype(R29::n26)>, json_::R29Impl::n26> && Same<Bare<decltype(std::declval<R29 &>()[R29::n26])>, V<2926>>, "pair 26 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n27::ValueType, V<2927>> && Same<JSON_VALUE_TYPE(R29, n27), V<2927>> && Same<Bare<decltype(R29::n27)>, json_::R29Impl::n27> && Same<Bare<decltype(std::declval<R29 &>()[R29::n27])>, V<2927>>, "pair 27 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n28::ValueType, V<2928>> && Same<JSON_VALUE_TYPE(R29, n28), V<2928>> && Same<Bare<decltype(R29::n28)>, json_::R29Impl::n28> && Same<Bare<decltype(std::declval<R29 &>()[R29::n28])>, V<2928>>, "pair 28 of 29 does not have its type");
static_assert(Same<json_::R29Impl::n29::ValueType, std::pair<V<29>, V<29>>> && Same<JSON_VALUE_TYPE(R29, n29), std::pair<V<29>, V<29>>> && Same<Bare<decltype(R29::n29)>, json_::R29Impl::n29> && Same<Bare<decltype(std::declval<R29 &>()[R29::n29])>, std::pair<V<29>, V<29>>>, "pair 29 of 29 does not have its type");
static_assert(Is<R29, json_::R29Impl::Base> && Is<json::Traits<R29>, json::Traits<json_::R29Impl::Base>> && Is<R29, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<json_::R30Impl::Base>::Type, std::tuple<json_::R30Impl::n1, json_::R30Impl::n2, json_::R30Impl::n3, json_::R30Impl::n4, json_::R30Impl::n5, json_::R30Impl::n6, json_::R30Impl::n7, json_::R30Impl::n8, json_::R30Impl::n9, json_::R30Impl::n10, json_::R30Impl::n11, json_::R30Impl::n12, json_::R30Impl::n13, json_::R30Impl::n14, json_::R30Impl::n15, json_::R30Impl::n16, json_::R30Impl::n17, json_::R30Impl::n18, json_::R30Impl::n19, json_::R30Impl::n20, json_::R30Impl::n21, json_::R30Impl::n22, json_::R30Impl::n23, json_::R30Impl::n24, json_::R30Impl::n25, json_::R30Impl::n26, json_::R30Impl::n27, json_::R30Impl::n28, json_::R30Impl::n29, json_::R30Impl::n30>>, "the cells of an object are not its 30 pairs in order");
static_assert(Same<json_::R30Impl::n1::ValueType, std::pair<V<30>, V<1>>> && Same<JSON_VALUE_TYPE(R30, n1), std::pair<V<30>, V<1>>> && Same<Bare<decltype(R30::n1)>, json_::R30Impl::n1> && Same<Bare<decltype(std::declval<R30 &>()[R30::n1])>, std::pair<V<30>, V<1>>>, "pair 1 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n2::ValueType, V<3002>> && Same<JSON_VALUE_TYPE(R30, n2), V<3002>> && Same<Bare<decltype(R30::n2)>, json_::R30Impl::n2> && Same<Bare<decltype(std::declval<R30 &>()[R30::n2])>, V<3002>>, "pair 2 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n3::ValueType, V<3003>> && Same<JSON_VALUE_TYPE(R30, n3), V<3003>> && Same<Bare<decltype(R30::n3)>, json_::R30Impl::n3> && Same<Bare<decltype(std::declval<R30 &>()[R30::n3])>, V<3003>>, "pair 3 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n4::ValueType, V<3004>> && Same<JSON_VALUE_TYPE(R30, n4), V<3004>> && Same<Bare<decltype(R30::n4)>, json_::R30Impl::n4> && Same<Bare<decltype(std::declval<R30 &>()[R30::n4])>, V<3004>>, "pair 4 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n5::ValueType, V<3005>> && Same<JSON_VALUE_TYPE(R30, n5), V<3005>> && Same<Bare<decltype(R30::n5)>, json_::R30Impl::n5> && Same<Bare<decltype(std::declval<R30 &>()[R30::n5])>, V<3005>>, "pair 5 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n6::ValueType, V<3006>> && Same<JSON_VALUE_TYPE(R30, n6), V<3006>> && Same<Bare<decltype(R30::n6)>, json_::R30Impl::n6> && Same<Bare<decltype(std::declval<R30 &>()[R30::n6])>, V<3006>>, "pair 6 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n7::ValueType, V<3007>> && Same<JSON_VALUE_TYPE(R30, n7), V<3007>> && Same<Bare<decltype(R30::n7)>, json_::R30Impl::n7> && Same<Bare<decltype(std::declval<R30 &>()[R30::n7])>, V<3007>>, "pair 7 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n8::ValueType, V<3008>> && Same<JSON_VALUE_TYPE(R30, n8), V<3008>> && Same<Bare<decltype(R30::n8)>, json_::R30Impl::n8> && Same<Bare<decltype(std::declval<R30 &>()[R30::n8])>, V<3008>>, "pair 8 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n9::ValueType, V<3009>> && Same<JSON_VALUE_TYPE(R30, n9), V<3009>> && Same<Bare<decltype(R30::n9)>, json_::R30Impl::n9> && Same<Bare<decltype(std::declval<R30 &>()[R30::n9])>, V<3009>>, "pair 9 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n10::ValueType, V<3010>> && Same<JSON_VALUE_TYPE(R30, n10), V<3010>> && Same<Bare<decltype(R30::n10)>, json_::R30Impl::n10> && Same<Bare<decltype(std::declval<R30 &>()[R30::n10])>, V<3010>>, "pair 10 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n11::ValueType, V<3011>> && Same<JSON_VALUE_TYPE(R30, n11), V<3011>> && Same<Bare<decltype(R30::n11)>, json_::R30Impl::n11> && Same<Bare<decltype(std::declval<R30 &>()[R30::n11])>, V<3011>>, "pair 11 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n12::ValueType, V<3012>> && Same<JSON_VALUE_TYPE(R30, n12), V<3012>> && Same<Bare<decltype(R30::n12)>, json_::R30Impl::n12> && Same<Bare<decltype(std::declval<R30 &>()[R30::n12])>, V<3012>>, "pair 12 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n13::ValueType, V<3013>> && Same<JSON_VALUE_TYPE(R30, n13), V<3013>> && Same<Bare<decltype(R30::n13)>, json_::R30Impl::n13> && Same<Bare<decltype(std::declval<R30 &>()[R30::n13])>, V<3013>>, "pair 13 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n14::ValueType, V<3014>> && Same<JSON_VALUE_TYPE(R30, n14), V<3014>> && Same<Bare<decltype(R30::n14)>, json_::R30Impl::n14> && Same<Bare<decltype(std::declval<R30 &>()[R30::n14])>, V<3014>>, "pair 14 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n15::ValueType, std::pair<V<30>, V<15>>> && Same<JSON_VALUE_TYPE(R30, n15), std::pair<V<30>, V<15>>> && Same<Bare<decltype(R30::n15)>, json_::R30Impl::n15> && Same<Bare<decltype(std::declval<R30 &>()[R30::n15])>, std::pair<V<30>, V<15>>>, "pair 15 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n16::ValueType, V<3016>> && Same<JSON_VALUE_TYPE(R30, n16), V<3016>> && Same<Bare<decltype(R30::n16)>, json_::R30Impl::n16> && Same<Bare<decltype(std::declval<R30 &>()[R30::n16])>, V<3016>>, "pair 16 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n17::ValueType, V<3017>> && Same<JSON_VALUE_TYPE(R30, n17), V<3017>> && Same<Bare<decltype(R30::n17)>, json_::R30Impl::n17> && Same<Bare<decltype(std::declval<R30 &>()[R30::n17])>, V<3017>>, "pair 17 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n18::ValueType, V<3018>> && Same<JSON_VALUE_TYPE(R30, n18), V<3018>> && Same<Bare<decltype(R30::n18)>, json_::R30Impl::n18> && Same<Bare<decltype(std::declval<R30 &>()[R30::n18])>, V<3018>>, "pair 18 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n19::ValueType, V<3019>> && Same<JSON_VALUE_TYPE(R30, n19), V<3019>> && Same<Bare<decltype(R30::n19)>, json_::R30Impl::n19> && Same<Bare<decltype(std::declval<R30 &>()[R30::n19])>, V<3019>>, "pair 19 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n20::ValueType, V<3020>> && Same<JSON_VALUE_TYPE(R30, n20), V<3020>> && Same<Bare<decltype(R30::n20)>, json_::R30Impl::n20> && Same<Bare<decltype(std::declval<R30 &>()[R30::n20])>, V<3020>>, "pair 20 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n21::ValueType, V<3021>> && Same<JSON_VALUE_TYPE(R30, n21), V<3021>> && Same<Bare<decltype(R30::n21)>, json_::R30Impl::n21> && Same<Bare<decltype(std::declval<R30 &>()[R30::n21])>, V<3021>>, "pair 21 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n22::ValueType, V<3022>> && Same<JSON_VALUE_TYPE(R30, n22), V<3022>> && Same<Bare<decltype(R30::n22)>, json_::R30Impl::n22> && Same<Bare<decltype(std::declval<R30 &>()[R30::n22])>, V<3022>>, "pair 22 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n23::ValueType, V<3023>> && Same<JSON_VALUE_TYPE(R30, n23), V<3023>> && Same<Bare<decltype(R30::n23)>, json_::R30Impl::n23> && Same<Bare<decltype(std::declval<R30 &>()[R30::n23])>, V<3023>>, "pair 23 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n24::ValueType, V<3024>> && Same<JSON_VALUE_TYPE(R30, n24), V<3024>> && Same<Bare<decltype(R30::n24)>, json_::R30Impl::n24> && Same<Bare<decltype(std::declval<R30 &>()[R30::n24])>, V<3024>>, "pair 24 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n25::ValueType, V<3025>> && Same<JSON_VALUE_TYPE(R30, n25), V<3025>> && Same<Bare<decltype(R30::n25)>, json_::R30Impl::n25> && Same<Bare<decltype(std::declval<R30 &>()[R30::n25])>, V<3025>>, "pair 25 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n26::ValueType, V<3026>> && Same<JSON_VALUE_TYPE(R30, n26), V<3026>> && Same<Bare<decltype(R30::n26)>, json_::R30Impl::n26> && Same<Bare<decltype(std::declval<R30 &>()[R30::n26])>, V<3026>>, "pair 26 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n27::ValueType, V<3027>> && Same<JSON_VALUE_TYPE(R30, n27), V<3027>> && Same<Bare<decltype(R30::n27)>, json_::R30Impl::n27> && Same<Bare<decltype(std::declval<R30 &>()[R30::n27])>, V<3027>>, "pair 27 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n28::ValueType, V<3028>> && Same<JSON_VALUE_TYPE(R30, n28), V<3028>> && Same<Bare<decltype(R30::n28)>, json_::R30Impl::n28> && Same<Bare<decltype(std::declval<R30 &>()[R30::n28])>, V<3028>>, "pair 28 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n29::ValueType, V<3029>> && Same<JSON_VALUE_TYPE(R30, n29), V<3029>> && Same<Bare<decltype(R30::n29)>, json_::R30Impl::n29> && Same<Bare<decltype(std::declval<R30 &>()[R30::n29])>, V<3029>>, "pair 29 of 30 does not have its type");
static_assert(Same<json_::R30Impl::n30::ValueType, std::pair<V<30>, V<30>>> && Same<JSON_VALUE_TYPE(R30, n30), std::pair<V<30>, V<30>>> && Same<Bare<decltype(R30::n30)>, json_::R30Impl::n30> && Same<Bare<decltype(std::declval<R30 &>()[R30::n30])>, std::pair<V<30>, V<30>>>, "pair 30 of 30 does not have its type");
static_assert(Is<R30, json_::R30Impl::Base> && Is<json::Traits<R30>, json::Traits<json_::R30Impl::Base>> && Is<R30, json::Object>, "an object is not made of its cells");
static_assert(Same<Cells<sub::json_::FreeImpl::Base>::Type, std::tuple<sub::json_::FreeImpl::right, sub::json_::FreeImpl::more, sub::json_::FreeImpl::left>>, "the cells of an object are not those named");
static_assert(Same<Cells<sub::json_::FreeRootImpl::Base>::Type, std::tuple<sub::json_::FreeRootImpl::left, sub::json_::FreeRootImpl::right>>, "the cells of an object are not those named");
static_assert(Is<json::Traits<sub::Free>, json::Traits<sub::json_::FreeImpl::Base>> && Is<json::Traits<sub::FreeRoot>, json::Traits<sub::json_::FreeRootImpl::Base>>, "an object is not converted cell by cell");
static_assert(Is<sub::FreeRoot, json::Object> && !Is<sub::Free, json::Object>, "top-level objects and no others are derived from Object");

extern "C" void drv_names0() {
  spec_text(&S1::n1.name(), "n1");
  spec_text(&S2::n1.name(), "n1");
  spec_text(&S2::n2.name(), "n2");
  spec_text(&S3::n1.name(), "n1");
  spec_text(&S3::n2.name(), "n2");
  spec_text(&S3::n3.name(), "n3");
  spec_text(&S4::n1.name(), "n1");
  spec_text(&S4::n2.name(), "n2");
  spec_text(&S4::n3.name(), "n3");
  spec_text(&S4::n4.name(), "n4");
  spec_text(&S5::n1.name(), "n1");
  spec_text(&S5::n2.name(), "n2");
  spec_text(&S5::n3.name(), "n3");
  spec_text(&S5::n4.name(), "n4");
  spec_text(&S5::n5.name(), "n5");
  spec_text(&S6::n1.name(), "n1");
  spec_text(&S6::n2.name(), "n2");
  spec_text(&S6::n3.name(), "n3");
  spec_text(&S6::n4.name(), "n4");
  spec_text(&S6::n5.name(), "n5");
  spec_text(&S6::n6.name(), "n6");
  spec_text(&S7::n1.name(), "n1");
  spec_text(&S7::n2.name(), "n2");
  spec_text(&S7::n3.name(), "n3");
  spec_text(&S7::n4.name(), "n4");
  spec_text(&S7::n5.name(), "n5");
  spec_text(&S7::n6.name(), "n6");
  spec_text(&S7::n7.name(), "n7");
  spec_text(&S8::n1.name(), "n1");
  spec_text(&S8::n2.name(), "n2");
  spec_text(&S8::n3.name(), "n3");
  spec_text(&S8::n4.name(), "n4");
  spec_text(&S8::n5.name(), "n5");
  spec_text(&S8::n6.name(), "n6");
  spec_text(&S8::n7.name(), "n7");
  spec_text(&S8::n8.name(), "n8");
  spec_text(&S9::n1.name(), "n1");
  spec_text(&S9::n2.name(), "n2");
  spec_text(&S9::n3.name(), "n3");
  spec_text(&S9::n4.name(), "n4");
  spec_text(&S9::n5.name(), "n5");
  spec_text(&S9::n6.name(), "n6");
  spec_text(&S9::n7.name(), "n7");
  spec_text(&S9::n8.name(), "n8");
  spec_text(&S9::n9.name(), "n9");
  spec_text(&S10::n1.name(), "n1");
  spec_text(&S10::n2.name(), "n2");
  spec_text(&S10::n3.name(), "n3");
  spec_text(&S10::n4.name(), "n4");
  spec_text(&S10::n5.name(), "n5");
  spec_text(&S10::n6.name(), "n6");
  spec_text(&S10::n7.name(), "n7");
  spec_text(&S10::n8.name(), "n8");
  spec_text(&S10::n9.name(), "n9");
  spec_text(&S10::n10.name(), "n10");
  spec_text(&S11::n1.name(), "n1");
  spec_text(&S11::n2.name(), "n2");
  spec_text(&S11::n3.name(), "n3");
  spec_text(&S11::n4.name(), "n4");
  spec_text(&S11::n5.name(), "n5");
  spec_text(&S11::n6.name(), "n6");
  spec_text(&S11::n7.name(), "n7");
  spec_text(&S11::n8.name(), "n8");
  spec_text(&S11::n9.name(), "n9");
  spec_text(&S11::n10.name(), "n10");
  spec_text(&S11::n11.name(), "n11");
  spec_text(&S12::n1.name(), "n1");
  spec_text(&S12::n2.name(), "n2");
  spec_text(&S12::n3.name(), "n3");
  spec_text(&S12::n4.name(), "n4");
  spec_text(&S12::n5.name(), "n5");
  spec_text(&S12::n6.name(), "n6");
  spec_text(&S12::n7.name(), "n7");
  spec_text(&S12::n8.name(), "n8");
  spec_text(&S12::n9.name(), "n9");
  spec_text(&S12::n10.name(), "n10");
  spec_text(&S12::n11.name(), "n11");
  spec_text(&S12::n12.name(), "n12");
  spec_text(&S13::n1.name(), "n1");
  spec_text(&S13::n2.name(), "n2");
  spec_text(&S13::n3.name(), "n3");
  spec_text(&S13::n4.name(), "n4");
  spec_text(&S13::n5.name(), "n5");
  spec_text(&S13::n6.name(), "n6");
  spec_text(&S13::n7.name(), "n7");
  spec_text(&S13::n8.name(), "n8");
  spec_text(&S13::n9.name(), "n9");
  spec_text(&S13::n10.name(), "n10");
  spec_text(&S13::n11.name(), "n11");
  spec_text(&S13::n12.name(), "n12");
  spec_text(&S13::n13.name(), "n13");
  spec_text(&S14::n1.name(), "n1");
  spec_text(&S14::n2.name(), "n2");
  spec_text(&S14::n3.name(), "n3");
  spec_text(&S14::n4.name(), "n4");
  spec_text(&S14::n5.name(), "n5");
  spec_text(&S14::n6.name(), "n6");
  spec_text(&S14::n7.name(), "n7");
  spec_text(&S14::n8.name(), "n8");
  spec_text(&S14::n9.name(), "n9");
  spec_text(&S14::n10.name(), "n10");
  spec_text(&S14::n11.name(), "n11");
  spec_text(&S14::n12.name(), "n12");
  spec_text(&S14::n13.name(), "n13");
  spec_text(&S14::n14.name(), "n14");
  spec_text(&S15::n1.name(), "n1");
  spec_text(&S15::n2.name(), "n2");
  spec_text(&S15::n3.name(), "n3");
  spec_text(&S15::n4.name(), "n4");
  spec_text(&S15::n5.name(), "n5");
  spec_text(&S15::n6.name(), "n6");
  spec_text(&S15::n7.name(), "n7");
  spec_text(&S15::n8.name(), "n8");
  spec_text(&S15::n9.name(), "n9");
  spec_text(&S15::n10.name(), "n10");
  spec_text(&S15::n11.name(), "n11");
  spec_text(&S15::n12.name(), "n12");
  spec_text(&S15::n13.name(), "n13");
  spec_text(&S15::n14.name(), "n14");
  spec_text(&S15::n15.name(), "n15");
  spec_text(&S16::n1.name(), "n1");
  spec_text(&S16::n2.name(), "n2");
  spec_text(&S16::n3.name(), "n3");
  spec_text(&S16::n4.name(), "n4");
  spec_text(&S16::n5.name(), "n5");
  spec_text(&S16::n6.name(), "n6");
  spec_text(&S16::n7.name(), "n7");
  spec_text(&S16::n8.name(), "n8");
  spec_text(&S16::n9.name(), "n9");
  spec_text(&S16::n10.name(), "n10");
  spec_text(&S16::n11.name(), "n11");
  spec_text(&S16::n12.name(), "n12");
  spec_text(&S16::n13.name(), "n13");
  spec_text(&S16::n14.name(), "n14");
  spec_text(&S16::n15.name(), "n15");
  spec_text(&S16::n16.name(), "n16");
  spec_text(&S17::n1.name(), "n1");
  spec_text(&S17::n2.name(), "n2");
  spec_text(&S17::n3.name(), "n3");
  spec_text(&S17::n4.name(), "n4");
  spec_text(&S17::n5.name(), "n5");
  spec_text(&S17::n6.name(), "n6");
  spec_text(&S17::n7.name(), "n7");
  spec_text(&S17::n8.name(), "n8");
  spec_text(&S17::n9.name(), "n9");
  spec_text(&S17::n10.name(), "n10");
  spec_text(&S17::n11.name(), "n11");
  spec_text(&S17::n12.name(), "n12");
  spec_text(&S17::n13.name(), "n13");
  spec_text(&S17::n14.name(), "n14");
  spec_text(&S17::n15.name(), "n15");
  spec_text(&S17::n16.name(), "n16");
  spec_text(&S17::n17.name(), "n17");
  spec_text(&S18::n1.name(), "n1");
  spec_text(&S18::n2.name(), "n2");
  spec_text(&S18::n3.name(), "n3");
  spec_text(&S18::n4.name(), "n4");
  spec_text(&S18::n5.name(), "n5");
  spec_text(&S18::n6.name(), "n6");
  spec_text(&S18::n7.name(), "n7");
  spec_text(&S18::n8.name(), "n8");
  spec_text(&S18::n9.name(), "n9");
  spec_text(&S18::n10.name(), "n10");
  spec_text(&S18::n11.name(), "n11");
  spec_text(&S18::n12.name(), "n12");
  spec_text(&S18::n13.name(), "n13");
  spec_text(&S18::n14.name(), "n14");
  spec_text(&S18::n15.name(), "n15");
  spec_text(&S18::n16.name(), "n16");
  spec_text(&S18::n17.name(), "n17");
  spec_text(&S18::n18.name(), "n18");
  spec_text(&S19::n1.name(), "n1");
  spec_text(&S19::n2.name(), "n2");
  spec_text(&S19::n3.name(), "n3");
  spec_text(&S19::n4.name(), "n4");
  spec_text(&S19::n5.name(), "n5");
  spec_text(&S19::n6.name(), "n6");
  spec_text(&S19::n7.name(), "n7");
  spec_text(&S19::n8.name(), "n8");
  spec_text(&S19::n9.name(), "n9");
  spec_text(&S19::n10.name(), "n10");
  spec_text(&S19::n11.name(), "n11");
  spec_text(&S19::n12.name(), "n12");
  spec_text(&S19::n13.name(), "n13");
  spec_text(&S19::n14.name(), "n14");
  spec_text(&S19::n15.name(), "n15");
  spec_text(&S19::n16.name(), "n16");
  spec_text(&S19::n17.name(), "n17");
  spec_text(&S19::n18.name(), "n18");
  spec_text(&S19::n19.name(), "n19");
  spec_text(&S20::n1.name(), "n1");
  spec_text(&S20::n2.name(), "n2");
  spec_text(&S20::n3.name(), "n3");
  spec_text(&S20::n4.name(), "n4");
  spec_text(&S20::n5.name(), "n5");
  spec_text(&S20::n6.name(), "n6");
  spec_text(&S20::n7.name(), "n7");
  spec_text(&S20::n8.name(), "n8");
  spec_text(&S20::n9.name(), "n9");
  spec_text(&S20::n10.name(), "n10");
  spec_text(&S20::n11.name(), "n11");
  spec_text(&S20::n12.name(), "n12");
  spec_text(&S20::n13.name(), "n13");
  spec_text(&S20::n14.name(), "n14");
  spec_text(&S20::n15.name(), "n15");
  spec_text(&S20::n16.name(), "n16");
  spec_text(&S20::n17.name(), "n17");
  spec_text(&S20::n18.name(), "n18");
  spec_text(&S20::n19.name(), "n19");
  spec_text(&S20::n20.name(), "n20");
  spec_text(&S21::n1.name(), "n1");
  spec_text(&S21::n2.name(), "n2");
  spec_text(&S21::n3.name(), "n3");
  spec_text(&S21::n4.name(), "n4");
  spec_text(&S21::n5.name(), "n5");
  spec_text(&S21::n6.name(), "n6");
  spec_text(&S21::n7.name(), "n7");
  spec_text(&S21::n8.name(), "n8");
  spec_text(&S21::n9.name(), "n9");
  spec_text(&S21::n10.name(), "n10");
  spec_text(&S21::n11.name(), "n11");
  spec_text(&S21::n12.name(), "n12");
  spec_text(&S21::n13.name(), "n13");
  spec_text(&S21::n14.name(), "n14");
  spec_text(&S21::n15.name(), "n15");
  spec_text(&S21::n16.name(), "n16");
  spec_text(&S21::n17.name(), "n17");
  spec_text(&S21::n18.name(), "n18");
  spec_text(&S21::n19.name(), "n19");
  spec_text(&S21::n20.name(), "n20");
  spec_text(&S21::n21.name(), "n21");
  spec_text(&S22::n1.name(), "n1");
  spec_text(&S22::n2.name(), "n2");
  spec_text(&S22::n3.name(), "n3");
  spec_text(&S22::n4.name(), "n4");
  spec_text(&S22::n5.name(), "n5");
  spec_text(&S22::n6.name(), "n6");
  spec_text(&S22::n7.name(), "n7");
  spec_text(&S22::n8.name(), "n8");
  spec_text(&S22::n9.name(), "n9");
  spec_text(&S22::n10.name(), "n10");
  spec_text(&S22::n11.name(), "n11");
  spec_text(&S22::n12.name(), "n12");
  spec_text(&S22::n13.name(), "n13");
  spec_text(&S22::n14.name(), "n14");
  spec_text(&S22::n15.name(), "n15");
  spec_text(&S22::n16.name(), "n16");
  spec_text(&S22::n17.name(), "n17");
  spec_text(&S22::n18.name(), "n18");
  spec_text(&S22::n19.name(), "n19");
  spec_text(&S22::n20.name(), "n20");
  spec_text(&S22::n21.name(), "n21");
  spec_text(&S22::n22.name(), "n22");
  spec_text(&S23::n1.name(), "n1");
  spec_text(&S23::n2.name(), "n2");
  spec_text(&S23::n3.name(), "n3");
  spec_text(&S23::n4.name(), "n4");
  spec_text(&S23::n5.name(), "n5");
  spec_text(&S23::n6.name(), "n6");
  spec_text(&S23::n7.name(), "n7");
  spec_text(&S23::n8.name(), "n8");
  spec_text(&S23::n9.name(), "n9");
  spec_text(&S23::n10.name(), "n10");
  spec_text(&S23::n11.name(), "n11");
  spec_text(&S23::n12.name(), "n12");
  spec_text(&S23::n13.name(), "n13");
  spec_text(&S23::n14.name(), "n14");
  spec_text(&S23::n15.name(), "n15");
  spec_text(&S23::n16.name(), "n16");
  spec_text(&S23::n17.name(), "n17");
  spec_text(&S23::n18.name(), "n18");
  spec_text(&S23::n19.name(), "n19");
  spec_text(&S23::n20.name(), "n20");
  spec_text(&S23::n21.name(), "n21");
  spec_text(&S23::n22.name(), "n22");
  spec_text(&S23::n23.name(), "n23");
  spec_text(&S24::n1.name(), "n1");
  spec_text(&S24::n2.name(), "n2");
  spec_text(&S24::n3.name(), "n3");
  spec_text(&S24::n4.name(), "n4");
  spec_text(&S24::n5.name(), "n5");
  spec_text(&S24::n6.name(), "n6");
  spec_text(&S24::n7.name(), "n7");
  spec_text(&S24::n8.name(), "n8");
  spec_text(&S24::n9.name(), "n9");
  spec_text(&S24::n10.name(), "n10");
  spec_text(&S24::n11.name(), "n11");
  spec_text(&S24::n12.name(), "n12");
  spec_text(&S24::n13.name(), "n13");
  spec_text(&S24::n14.name(), "n14");
  spec_text(&S24::n15.name(), "n15");
  spec_text(&S24::n16.name(), "n16");
  spec_text(&S24::n17.name(), "n17");
  spec_text(&S24::n18.name(), "n18");
  spec_text(&S24::n19.name(), "n19");
  spec_text(&S24::n20.name(), "n20");
  spec_text(&S24::n21.name(), "n21");
  spec_text(&S24::n22.name(), "n22");
  spec_text(&S24::n23.name(), "n23");
  spec_text(&S24::n24.name(), "n24");
  spec_text(&S25::n1.name(), "n1");
  spec_text(&S25::n2.name(), "n2");
  spec_text(&S25::n3.name(), "n3");
  spec_text(&S25::n4.name(), "n4");
  spec_text(&S25::n5.name(), "n5");
  spec_text(&S25::n6.name(), "n6");
  spec_text(&S25::n7.name(), "n7");
  spec_text(&S25::n8.name(), "n8");
  spec_text(&S25::n9.name(), "n9");
  spec_text(&S25::n10.name(), "n10");
  spec_text(&S25::n11.name(), "n11");
  spec_text(&S25::n12.name(), "n12");
  spec_text(&S25::n13.name(), "n13");
  spec_text(&S25::n14.name(), "n14");
  spec_text(&S25::n15.name(), "n15");
  spec_text(&S25::n16.name(), "n16");
  spec_text(&S25::n17.name(), "n17");
  spec_text(&S25::n18.name(), "n18");
  spec_text(&S25::n19.name(), "n19");
  spec_text(&S25::n20.name(), "n20");
  spec_text(&S25::n21.name(), "n21");
  spec_text(&S25::n22.name(), "n22");
  spec_text(&S25::n23.name(), "n23");
  spec_text(&S25::n24.name(), "n24");
  spec_text(&S25::n25.name(), "n25");
  spec_text(&S26::n1.name(), "n1");
  spec_text(&S26::n2.name(), "n2");
  spec_text(&S26::n3.name(), "n3");
  spec_text(&S26::n4.name(), "n4");
  spec_text(&S26::n5.name(), "n5");
  spec_text(&S26::n6.name(), "n6");
  spec_text(&S26::n7.name(), "n7");
  spec_text(&S26::n8.name(), "n8");
  spec_text(&S26::n9.name(), "n9");
  spec_text(&S26::n10.name(), "n10");
  spec_text(&S26::n11.name(), "n11");
  spec_text(&S26::n12.name(), "n12");
  spec_text(&S26::n13.name(), "n13");
  spec_text(&S26::n14.name(), "n14");
  spec_text(&S26::n15.name(), "n15");
  spec_text(&S26::n16.name(), "n16");
  spec_text(&S26::n17.name(), "n17");
  spec_text(&S26::n18.name(), "n18");
  spec_text(&S26::n19.name(), "n19");
  spec_text(&S26::n20.name(), "n20");
  spec_text(&S26::n21.name(), "n21");
  spec_text(&S26::n22.name(), "n22");
  spec_text(&S26::n23.name(), "n23");
  spec_text(&S26::n24.name(), "n24");
  spec_text(&S26::n25.name(), "n25");
  spec_text(&S26::n26.name(), "n26");
  spec_text(&S27::n1.name(), "n1");
  spec_text(&S27::n2.name(), "n2");
  spec_text(&S27::n3.name(), "n3");
  spec_text(&S27::n4.name(), "n4");
  spec_text(&S27::n5.name(), "n5");
  spec_text(&S27::n6.name(), "n6");
  spec_text(&S27::n7.name(), "n7");
  spec_text(&S27::n8.name(), "n8");
  spec_text(&S27::n9.name(), "n9");
  spec_text(&S27::n10.name(), "n10");
  spec_text(&S27::n11.name(), "n11");
  spec_text(&S27::n12.name(), "n12");
  spec_text(&S27::n13.name(), "n13");
  spec_text(&S27::n14.name(), "n14");
  spec_text(&S27::n15.name(), "n15");
  spec_text(&S27::n16.name(), "n16");
  spec_text(&S27::n17.name(), "n17");
  spec_text(&S27::n18.name(), "n18");
  spec_text(&S27::n19.name(), "n19");
  spec_text(&S27::n20.name(), "n20");
  spec_text(&S27::n21.name(), "n21");
  spec_text(&S27::n22.name(), "n22");
  spec_text(&S27::n23.name(), "n23");
  spec_text(&S27::n24.name(), "n24");
  spec_text(&S27::n25.name(), "n25");
  spec_text(&S27::n26.name(), "n26");
  spec_text(&S27::n27.name(), "n27");
  spec_text(&S28::n1.name(), "n1");
  spec_text(&S28::n2.name(), "n2");
  spec_text(&S28::n3.name(), "n3");
  spec_text(&S28::n4.name(), "n4");
  spec_text(&S28::n5.name(), "n5");
  spec_text(&S28::n6.name(), "n6");
  spec_text(&S28::n7.name(), "n7");
  spec_text(&S28::n8.name(), "n8");
  spec_text(&S28::n9.name(), "n9");
  spec_text(&S28::n10.name(), "n10");
  spec_text(&S28::n11.name(), "n11");
  spec_text(&S28::n12.name(), "n12");
  spec_text(&S28::n13.name(), "n13");
  spec_text(&S28::n14.name(), "n14");
  spec_text(&S28::n15.name(), "n15");
  spec_text(&S28::n16.name(), "n16");
  spec_text(&S28::n17.name(), "n17");
  spec_text(&S28::n18.name(), "n18");
  spec_text(&S28::n19.name(), "n19");
  spec_text(&S28::n20.name(), "n20");
  spec_text(&S28::n21.name(), "n21");
  spec_text(&S28::n22.name(), "n22");
  spec_text(&S28::n23.name(), "n23");
  spec_text(&S28::n24.name(), "n24");
  spec_text(&S28::n25.name(), "n25");
  spec_text(&S28::n26.name(), "n26");
  spec_text(&S28::n27.name(), "n27");
  spec_text(&S28::n28.name(), "n28");
  spec_text(&S29::n1.name(), "n1");
  spec_text(&S29::n2.name(), "n2");
  spec_text(&S29::n3.name(), "n3");
  spec_text(&S29::n4.name(), "n4");
  spec_text(&S29::n5.name(), "n5");
  spec_text(&S29::n6.name(), "n6");
  spec_text(&S29::n7.name(), "n7");
  spec_text(&S29::n8.name(), "n8");
  spec_text(&S29::n9.name(), "n9");
  spec_text(&S29::n10.name(), "n10");
  spec_text(&S29::n11.name(), "n11");
  spec_text(&S29::n12.name(), "n12");
  spec_text(&S29::n13.name(), "n13");
  spec_text(&S29::n14.name(), "n14");
  spec_text(&S29::n15.name(), "n15");
  spec_text(&S29::n16.name(), "n16");
  spec_text(&S29::n17.name(), "n17");
  spec_text(&S29::n18.name(), "n18");
  spec_text(&S29::n19.name(), "n19");
  spec_text(&S29::n20.name(), "n20");
  spec_text(&S29::n21.name(), "n21");
  spec_text(&S29::n22.name(), "n22");
  spec_text(&S29::n23.name(), "n23");
  spec_text(&S29::n24.name(), "n24");
  spec_text(&S29::n25.name(), "n25");
  spec_text(&S29::n26.name(), "n26");
  spec_text(&S29::n27.name(), "n27");
  spec_text(&S29::n28.name(), "n28");
  spec_text(&S29::n29.name(), "n29");
  spec_text(&S30::n1.name(), "n1");
  spec_text(&S30::n2.name(), "n2");
  spec_text(&S30::n3.name(), "n3");
  spec_text(&S30::n4.name(), "n4");
  spec_text(&S30::n5.name(), "n5");
  spec_text(&S30::n6.name(), "n6");
  spec_text(&S30::n7.name(), "n7");
  spec_text(&S30::n8.name(), "n8");
  spec_text(&S30::n9.name(), "n9");
  spec_text(&S30::n10.name(), "n10");
  spec_text(&S30::n11.name(), "n11");
  spec_text(&S30::n12.name(), "n12");
  spec_text(&S30::n13.name(), "n13");
  spec_text(&S30::n14.name(), "n14");
  spec_text(&S30::n15.name(), "n15");
  spec_text(&S30::n16.name(), "n16");
  spec_text(&S30::n17.name(), "n17");
  spec_text(&S30::n18.name(), "n18");
  spec_text(&S30::n19.name(), "n19");
  spec_text(&S30::n20.name(), "n20");
  spec_text(&S30::n21.name(), "n21");
  spec_text(&S30::n22.name(), "n22");
  spec_text(&S30::n23.name(), "n23");
  spec_text(&S30::n24.name(), "n24");
  spec_text(&S30::n25.name(), "n25");
  spec_text(&S30::n26.name(), "n26");
  spec_text(&S30::n27.name(), "n27");
  spec_text(&S30::n28.name(), "n28");
  spec_text(&S30::n29.name(), "n29");
  spec_text(&S30::n30.name(), "n30");
}
extern "C" void drv_names1() {
  spec_text(&R1::n1.name(), "n1");
  spec_text(&R1::name(), "R1");
  spec_text(&R2::n1.name(), "n1");
  spec_text(&R2::n2.name(), "n2");
  spec_text(&R2::name(), "R2");
  spec_text(&R3::n1.name(), "n1");
  spec_text(&R3::n2.name(), "n2");
  spec_text(&R3::n3.name(), "n3");
  spec_text(&R3::name(), "R3");
  spec_text(&R4::n1.name(), "n1");
  spec_text(&R4::n2.name(), "n2");
  spec_text(&R4::n3.name(), "n3");
  spec_text(&R4::n4.name(), "n4");
  spec_text(&R4::name(), "R4");
  spec_text(&R5::n1.name(), "n1");
  spec_text(&R5::n2.name(), "n2");
  spec_text(&R5::n3.name(), "n3");
  spec_text(&R5::n4.name(), "n4");
  spec_text(&R5::n5.name(), "n5");
  spec_text(&R5::name(), "R5");
  spec_text(&R6::n1.name(), "n1");
  spec_text(&R6::n2.name(), "n2");
  spec_text(&R6::n3.name(), "n3");
  spec_text(&R6::n4.name(), "n4");
  spec_text(&R6::n5.name(), "n5");
  spec_text(&R6::n6.name(), "n6");
  spec_text(&R6::name(), "R6");
  spec_text(&R7::n1.name(), "n1");
  spec_text(&R7::n2.name(), "n2");
  spec_text(&R7::n3.name(), "n3");
  spec_text(&R7::n4.name(), "n4");
  spec_text(&R7::n5.name(), "n5");
  spec_text(&R7::n6.name(), "n6");
  spec_text(&R7::n7.name(), "n7");
  spec_text(&R7::name(), "R7");
  spec_text(&R8::n1.name(), "n1");
  spec_text(&R8::n2.name(), "n2");
  spec_text(&R8::n3.name(), "n3");
  spec_text(&R8::n4.name(), "n4");
  spec_text(&R8::n5.name(), "n5");
  spec_text(&R8::n6.name(), "n6");
  spec_text(&R8::n7.name(), "n7");
  spec_text(&R8::n8.name(), "n8");
  spec_text(&R8::name(), "R8");
  spec_text(&R9::n1.name(), "n1");
  spec_text(&R9::n2.name(), "n2");
  spec_text(&R9::n3.name(), "n3");
  spec_text(&R9::n4.name(), "n4");
  spec_text(&R9::n5.name(), "n5");
  spec_text(&R9::n6.name(), "n6");
  spec_text(&R9::n7.name(), "n7");
  spec_text(&R9::n8.name(), "n8");
  spec_text(&R9::n9.name(), "n9");
  spec_text(&R9::name(), "R9");
  spec_text(&R10::n1.name(), "n1");
  spec_text(&R10::n2.name(), "n2");
  spec_text(&R10::n3.name(), "n3");
  spec_text(&R10::n4.name(), "n4");
  spec_text(&R10::n5.name(), "n5");
  spec_text(&R10::n6.name(), "n6");
  spec_text(&R10::n7.name(), "n7");
  spec_text(&R10::n8.name(), "n8");
  spec_text(&R10::n9.name(), "n9");
  spec_text(&R10::n10.name(), "n10");
  spec_text(&R10::name(), "R10");
  spec_text(&R11::n1.name(), "n1");
  spec_text(&R11::n2.name(), "n2");
  spec_text(&R11::n3.name(), "n3");
  spec_text(&R11::n4.name(), "n4");
  spec_text(&R11::n5.name(), "n5");
  spec_text(&R11::n6.name(), "n6");
  spec_text(&R11::n7.name(), "n7");
  spec_text(&R11::n8.name(), "n8");
  spec_text(&R11::n9.name(), "n9");
  spec_text(&R11::n10.name(), "n10");
  spec_text(&R11::n11.name(), "n11");
  spec_text(&R11::name(), "R11");
  spec_text(&R12::n1.name(), "n1");
  spec_text(&R12::n2.name(), "n2");
  spec_text(&R12::n3.name(), "n3");
  spec_text(&R12::n4.name(), "n4");
  spec_text(&R12::n5.name(), "n5");
  spec_text(&R12::n6.name(), "n6");
  spec_text(&R12::n7.name(), "n7");
  spec_text(&R12::n8.name(), "n8");
  spec_text(&R12::n9.name(), "n9");
  spec_text(&R12::n10.name(), "n10");
  spec_text(&R12::n11.name(), "n11");
  spec_text(&R12::n12.name(), "n12");
  spec_text(&R12::name(), "R12");
  spec_text(&R13::n1.name(), "n1");
  spec_text(&R13::n2.name(), "n2");
  spec_text(&R13::n3.name(), "n3");
  spec_text(&R13::n4.name(), "n4");
  spec_text(&R13::n5.name(), "n5");
  spec_text(&R13::n6.name(), "n6");
  spec_text(&R13::n7.name(), "n7");
  spec_text(&R13::n8.name(), "n8");
  spec_text(&R13::n9.name(), "n9");
  spec_text(&R13::n10.name(), "n10");
  spec_text(&R13::n11.name(), "n11");
  spec_text(&R13::n12.name(), "n12");
  spec_text(&R13::n13.name(), "n13");
  spec_text(&R13::name(), "R13");
  spec_text(&R14::n1.name(), "n1");
  spec_text(&R14::n2.name(), "n2");
  spec_text(&R14::n3.name(), "n3");
  spec_text(&R14::n4.name(), "n4");
  spec_text(&R14::n5.name(), "n5");
  spec_text(&R14::n6.name(), "n6");
  spec_text(&R14::n7.name(), "n7");
  spec_text(&R14::n8.name(), "n8");
  spec_text(&R14::n9.name(), "n9");
  spec_text(&R14::n10.name(), "n10");
  spec_text(&R14::n11.name(), "n11");
  spec_text(&R14::n12.name(), "n12");
  spec_text(&R14::n13.name(), "n13");
  spec_text(&R14::n14.name(), "n14");
  spec_text(&R14::name(), "R14");
  spec_text(&R15::n1.name(), "n1");
  spec_text(&R15::n2.name(), "n2");
  spec_text(&R15::n3.name(), "n3");
  spec_text(&R15::n4.name(), "n4");
  spec_text(&R15::n5.name(), "n5");
  spec_text(&R15::n6.name(), "n6");
  spec_text(&R15::n7.name(), "n7");
  spec_text(&R15::n8.name(), "n8");
  spec_text(&R15::n9.name(), "n9");
  spec_text(&R15::n10.name(), "n10");
  spec_text(&R15::n11.name(), "n11");
  spec_text(&R15::n12.name(), "n12");
  spec_text(&R15::n13.name(), "n13");
  spec_text(&R15::n14.name(), "n14");
  spec_text(&R15::n15.name(), "n15");
  spec_text(&R15::name(), "R15");
  spec_text(&R16::n1.name(), "n1");
  spec_text(&R16::n2.name(), "n2");
  spec_text(&R16::n3.name(), "n3");
  spec_text(&R16::n4.name(), "n4");
  spec_text(&R16::n5.name(), "n5");
  spec_text(&R16::n6.name(), "n6");
  spec_text(&R16::n7.name(), "n7");
  spec_text(&R16::n8.name(), "n8");
  spec_text(&R16::n9.name(), "n9");
  spec_text(&R16::n10.name(), "n10");
  spec_text(&R16::n11.name(), "n11");
  spec_text(&R16::n12.name(), "n12");
  spec_text(&R16::n13.name(), "n13");
  spec_text(&R16::n14.name(), "n14");
  spec_text(&R16::n15.name(), "n15");
  spec_text(&R16::n16.name(), "n16");
  spec_text(&R16::name(), "R16");
  spec_text(&R17::n1.name(), "n1");
  spec_text(&R17::n2.name(), "n2");
  spec_text(&R17::n3.name(), "n3");
  spec_text(&R17::n4.name(), "n4");
  spec_text(&R17::n5.name(), "n5");
  spec_text(&R17::n6.name(), "n6");
  spec_text(&R17::n7.name(), "n7");
  spec_text(&R17::n8.name(), "n8");
  spec_text(&R17::n9.name(), "n9");
  spec_text(&R17::n10.name(), "n10");
  spec_text(&R17::n11.name(), "n11");
  spec_text(&R17::n12.name(), "n12");
  spec_text(&R17::n13.name(), "n13");
  spec_text(&R17::n14.name(), "n14");
  spec_text(&R17::n15.name(), "n15");
  spec_text(&R17::n16.name(), "n16");
  spec_text(&R17::n17.name(), "n17");
  spec_text(&R17::name(), "R17");
  spec_text(&R18::n1.name(), "n1");
  spec_text(&R18::n2.name(), "n2");
  spec_text(&R18::n3.name(), "n3");
  spec_text(&R18::n4.name(), "n4");
  spec_text(&R18::n5.name(), "n5");
  spec_text(&R18::n6.name(), "n6");
  spec_text(&R18::n7.name(), "n7");
  spec_text(&R18::n8.name(), "n8");
  spec_text(&R18::n9.name(), "n9");
  spec_text(&R18::n10.name(), "n10");
  spec_text(&R18::n11.name(), "n11");
  spec_text(&R18::n12.name(), "n12");
  spec_text(&R18::n13.name(), "n13");
  spec_text(&R18::n14.name(), "n14");
  spec_text(&R18::n15.name(), "n15");
  spec_text(&R18::n16.name(), "n16");
  spec_text(&R18::n17.name(), "n17");
  spec_text(&R18::n18.name(), "n18");
  spec_text(&R18::name(), "R18");
  spec_text(&R19::n1.name(), "n1");
  spec_text(&R19::n2.name(), "n2");
  spec_text(&R19::n3.name(), "n3");
  spec_text(&R19::n4.name(), "n4");
  spec_text(&R19::n5.name(), "n5");
  spec_text(&R19::n6.name(), "n6");
  spec_text(&R19::n7.name(), "n7");
  spec_text(&R19::n8.name(), "n8");
  spec_text(&R19::n9.name(), "n9");
  spec_text(&R19::n10.name(), "n10");
  spec_text(&R19::n11.name(), "n11");
  spec_text(&R19::n12.name(), "n12");
  spec_text(&R19::n13.name(), "n13");
  spec_text(&R19::n14.name(), "n14");
  spec_text(&R19::n15.name(), "n15");
  spec_text(&R19::n16.name(), "n16");
  spec_text(&R19::n17.name(), "n17");
  spec_text(&R19::n18.name(), "n18");
  spec_text(&R19::n19.name(), "n19");
  spec_text(&R19::name(), "R19");
  spec_text(&R20::n1.name(), "n1");
  spec_text(&R20::n2.name(), "n2");
  spec_text(&R20::n3.name(), "n3");
  spec_text(&R20::n4.name(), "n4");
  spec_text(&R20::n5.name(), "n5");
  spec_text(&R20::n6.name(), "n6");
  spec_text(&R20::n7.name(), "n7");
  spec_text(&R20::n8.name(), "n8");
  spec_text(&R20::n9.name(), "n9");
  spec_text(&R20::n10.name(), "n10");
  spec_text(&R20::n11.name(), "n11");
  spec_text(&R20::n12.name(), "n12");
  spec_text(&R20::n13.name(), "n13");
  spec_text(&R20::n14.name(), "n14");
  spec_text(&R20::n15.name(), "n15");
  spec_text(&R20::n16.name(), "n16");
  spec_text(&R20::n17.name(), "n17");
  spec_text(&R20::n18.name(), "n18");
  spec_text(&R20::n19.name(), "n19");
  spec_text(&R20::n20.name(), "n20");
  spec_text(&R20::name(), "R20");
  spec_text(&R21::n1.name(), "n1");
  spec_text(&R21::n2.name(), "n2");
  spec_text(&R21::n3.name(), "n3");
  spec_text(&R21::n4.name(), "n4");
  spec_text(&R21::n5.name(), "n5");
  spec_text(&R21::n6.name(), "n6");
  spec_text(&R21::n7.name(), "n7");
  spec_text(&R21::n8.name(), "n8");
  spec_text(&R21::n9.name(), "n9");
  spec_text(&R21::n10.name(), "n10");
  spec_text(&R21::n11.name(), "n11");
  spec_text(&R21::n12.name(), "n12");
  spec_text(&R21::n13.name(), "n13");
  spec_text(&R21::n14.name(), "n14");
  spec_text(&R21::n15.name(), "n15");
  spec_text(&R21::n16.name(), "n16");
  spec_text(&R21::n17.name(), "n17");
  spec_text(&R21::n18.name(), "n18");
  spec_text(&R21::n19.name(), "n19");
  spec_text(&R21::n20.name(), "n20");
  spec_text(&R21::n21.name(), "n21");
  spec_text(&R21::name(), "R21");
  spec_text(&R22::n1.name(), "n1");
  spec_text(&R22::n2.name(), "n2");
  spec_text(&R22::n3.name(), "n3");
  spec_text(&R22::n4.name(), "n4");
  spec_text(&R22::n5.name(), "n5");
  spec_text(&R22::n6.name(), "n6");
  spec_text(&R22::n7.name(), "n7");
  spec_text(&R22::n8.name(), "n8");
  spec_text(&R22::n9.name(), "n9");
  spec_text(&R22::n10.name(), "n10");
  spec_text(&R22::n11.name(), "n11");
  spec_text(&R22::n12.name(), "n12");
  spec_text(&R22::n13.name(), "n13");
  spec_text(&R22::n14.name(), "n14");
  spec_text(&R22::n15.name(), "n15");
  spec_text(&R22::n16.name(), "n16");
  spec_text(&R22::n17.name(), "n17");
  spec_text(&R22::n18.name(), "n18");
  spec_text(&R22::n19.name(), "n19");
  spec_text(&R22::n20.name(), "n20");
  spec_text(&R22::n21.name(), "n21");
  spec_text(&R22::n22.name(), "n22");
  spec_text(&R22::name(), "R22");
  spec_text(&R23::n1.name(), "n1");
  spec_text(&R23::n2.name(), "n2");
  spec_text(&R23::n3.name(), "n3");
  spec_text(&R23::n4.name(), "n4");
  spec_text(&R23::n5.name(), "n5");
  spec_text(&R23::n6.name(), "n6");
  spec_text(&R23::n7.name(), "n7");
  spec_text(&R23::n8.name(), "n8");
  spec_text(&R23::n9.name(), "n9");
  spec_text(&R23::n10.name(), "n10");
  spec_text(&R23::n11.name(), "n11");
  spec_text(&R23::n12.name(), "n12");
  spec_text(&R23::n13.name(), "n13");
  spec_text(&R23::n14.name(), "n14");
  spec_text(&R23::n15.name(), "n15");
  spec_text(&R23::n16.name(), "n16");
  spec_text(&R23::n17.name(), "n17");
  spec_text(&R23::n18.name(), "n18");
  spec_text(&R23::n19.name(), "n19");
  spec_text(&R23::n20.name(), "n20");
  spec_text(&R23::n21.name(), "n21");
  spec_text(&R23::n22.name(), "n22");
  spec_text(&R23::n23.name(), "n23");
  spec_text(&R23::name(), "R23");
  spec_text(&R24::n1.name(), "n1");
  spec_text(&R24::n2.name(), "n2");
  spec_text(&R24::n3.name(), "n3");
  spec_text(&R24::n4.name(), "n4");
  spec_text(&R24::n5.name(), "n5");
  spec_text(&R24::n6.name(), "n6");
  spec_text(&R24::n7.name(), "n7");
  spec_text(&R24::n8.name(), "n8");
  spec_text(&R24::n9.name(), "n9");
  spec_text(&R24::n10.name(), "n10");
  spec_text(&R24::n11.name(), "n11");
  spec_text(&R24::n12.name(), "n12");
  spec_text(&R24::n13.name(), "n13");
  spec_text(&R24::n14.name(), "n14");
  spec_text(&R24::n15.name(), "n15");
  spec_text(&R24::n16.name(), "n16");
  spec_text(&R24::n17.name(), "n17");
  spec_text(&R24::n18.name(), "n18");
  spec_text(&R24::n19.name(), "n19");
  spec_text(&R24::n20.name(), "n20");
  spec_text(&R24::n21.name(), "n21");
  spec_text(&R24::n22.name(), "n22");
  spec_text(&R24::n23.name(), "n23");
  spec_text(&R24::n24.name(), "n24");
  spec_text(&R24::name(), "R24");
  spec_text(&R25::n1.name(), "n1");
  spec_text(&R25::n2.name(), "n2");
  spec_text(&R25::n3.name(), "n3");
  spec_text(&R25::n4.name(), "n4");
  spec_text(&R25::n5.name(), "n5");
  spec_text(&R25::n6.name(), "n6");
  spec_text(&R25::n7.name(), "n7");
  spec_text(&R25::n8.name(), "n8");
  spec_text(&R25::n9.name(), "n9");
  spec_text(&R25::n10.name(), "n10");
  spec_text(&R25::n11.name(), "n11");
  spec_text(&R25::n12.name(), "n12");
  spec_text(&R25::n13.name(), "n13");
  spec_text(&R25::n14.name(), "n14");
  spec_text(&R25::n15.name(), "n15");
  spec_text(&R25::n16.name(), "n16");
  spec_text(&R25::n17.name(), "n17");
  spec_text(&R25::n18.name(), "n18");
  spec_text(&R25::n19.name(), "n19");
  spec_text(&R25::n20.name(), "n20");
  spec_text(&R25::n21.name(), "n21");
  spec_text(&R25::n22.name(), "n22");
  spec_text(&R25::n23.name(), "n23");
  spec_text(&R25::n24.name(), "n24");
  spec_text(&R25::n25.name(), "n25");
  spec_text(&R25::name(), "R25");
  spec_text(&R26::n1.name(), "n1");
  spec_text(&R26::n2.name(), "n2");
  spec_text(&R26::n3.name(), "n3");
  spec_text(&R26::n4.name(), "n4");
  spec_text(&R26::n5.name(), "n5");
  spec_text(&R26::n6.name(), "n6");
  spec_text(&R26::n7.name(), "n7");
  spec_text(&R26::n8.name(), "n8");
  spec_text(&R26::n9.name(), "n9");
  spec_text(&R26::n10.name(), "n10");
  spec_text(&R26::n11.name(), "n11");
  spec_text(&R26::n12.name(), "n12");
  spec_text(&R26::n13.name(), "n13");
  spec_text(&R26::n14.name(), "n14");
  spec_text(&R26::n15.name(), "n15");
  spec_text(&R26::n16.name(), "n16");
  spec_text(&R26::n17.name(), "n17");
  spec_text(&R26::n18.name(), "n18");
  spec_text(&R26::n19.name(), "n19");
  spec_text(&R26::n20.name(), "n20");
  spec_text(&R26::n21.name(), "n21");
  spec_text(&R26::n22.name(), "n22");
  spec_text(&R26::n23.name(), "n23");
  spec_text(&R26::n24.name(), "n24");
  spec_text(&R26::n25.name(), "n25");
  spec_text(&R26::n26.name(), "n26");
  spec_text(&R26::name(), "R26");
  spec_text(&R27::n1.name(), "n1");
  spec_text(&R27::n2.name(), "n2");
  spec_text(&R27::n3.name(), "n3");
  spec_text(&R27::n4.name(), "n4");
  spec_text(&R27::n5.name(), "n5");
  spec_text(&R27::n6.name(), "n6");
  spec_text(&R27::n7.name(), "n7");
  spec_text(&R27::n8.name(), "n8");
  spec_text(&R27::n9.name(), "n9");
  spec_text(&R27::n10.name(), "n10");
  spec_text(&R27::n11.name(), "n11");
  spec_text(&R27::n12.name(), "n12");
  spec_text(&R27::n13.name(), "n13");
  spec_text(&R27::n14.name(), "n14");
  spec_text(&R27::n15.name(), "n15");
  spec_text(&R27::n16.name(), "n16");
  spec_text(&R27::n17.name(), "n17");
  spec_text(&R27::n18.name(), "n18");
  spec_text(&R27::n19.name(), "n19");
  spec_text(&R27::n20.name(), "n20");
  spec_text(&R27::n21.name(), "n21");
  spec_text(&R27::n22.name(), "n22");
  spec_text(&R27::n23.name(), "n23");
  spec_text(&R27::n24.name(), "n24");
  spec_text(&R27::n25.name(), "n25");
  spec_text(&R27::n26.name(), "n26");
  spec_text(&R27::n27.name(), "n27");
  spec_text(&R27::name(), "R27");
  spec_text(&R28::n1.name(), "n1");
  spec_text(&R28::n2.name(), "n2");
  spec_text(&R28::n3.name(), "n3");
  spec_text(&R28::n4.name(), "n4");
  spec_text(&R28::n5.name(), "n5");
  spec_text(&R28::n6.name(), "n6");
  spec_text(&R28::n7.name(), "n7");
  spec_text(&R28::n8.name(), "n8");
  spec_text(&R28::n9.name(), "n9");
  spec_text(&R28::n10.name(), "n10");
  spec_text(&R28::n11.name(), "n11");
  spec_text(&R28::n12.name(), "n12");
  spec_text(&R28::n13.name(), "n13");
  spec_text(&R28::n14.name(), "n14");
  spec_text(&R28::n15.name(), "n15");
  spec_text(&R28::n16.name(), "n16");
  spec_text(&R28::n17.name(), "n17");
  spec_text(&R28::n18.name(), "n18");
  spec_text(&R28::n19.name(), "n19");
  spec_text(&R28::n20.name(), "n20");
  spec_text(&R28::n21.name(), "n21");
  spec_text(&R28::n22.name(), "n22");
  spec_text(&R28::n23.name(), "n23");
  spec_text(&R28::n24.name(), "n24");
  spec_text(&R28::n25.name(), "n25");
  spec_text(&R28::n26.name(), "n26");
  spec_text(&R28::n27.name(), "n27");
  spec_text(&R28::n28.name(), "n28");
  spec_text(&R28::name(), "R28");
  spec_text(&R29::n1.name(), "n1");
  spec_text(&R29::n2.name(), "n2");
  spec_text(&R29::n3.name(), "n3");
  spec_text(&R29::n4.name(), "n4");
  spec_text(&R29::n5.name(), "n5");
  spec_text(&R29::n6.name(), "n6");
  spec_text(&R29::n7.name(), "n7");
  spec_text(&R29::n8.name(), "n8");
  spec_text(&R29::n9.name(), "n9");
  spec_text(&R29::n10.name(), "n10");
  spec_text(&R29::n11.name(), "n11");
  spec_text(&R29::n12.name(), "n12");
  spec_text(&R29::n13.name(), "n13");
  spec_text(&R29::n14.name(), "n14");
  spec_text(&R29::n15.name(), "n15");
  spec_text(&R29::n16.name(), "n16");
  spec_text(&R29::n17.name(), "n17");
  spec_text(&R29::n18.name(), "n18");
  spec_text(&R29::n19.name(), "n19");
  spec_text(&R29::n20.name(), "n20");
  spec_text(&R29::n21.name(), "n21");
  spec_text(&R29::n22.name(), "n22");
  spec_text(&R29::n23.name(), "n23");
  spec_text(&R29::n24.name(), "n24");
  spec_text(&R29::n25.name(), "n25");
  spec_text(&R29::n26.name(), "n26");
  spec_text(&R29::n27.name(), "n27");
  spec_text(&R29::n28.name(), "n28");
  spec_text(&R29::n29.name(), "n29");
  spec_text(&R29::name(), "R29");
  spec_text(&R30::n1.name(), "n1");
  spec_text(&R30::n2.name(), "n2");
  spec_text(&R30::n3.name(), "n3");
  spec_text(&R30::n4.name(), "n4");
  spec_text(&R30::n5.name(), "n5");
  spec_text(&R30::n6.name(), "n6");
  spec_text(&R30::n7.name(), "n7");
  spec_text(&R30::n8.name(), "n8");
  spec_text(&R30::n9.name(), "n9");
  spec_text(&R30::n10.name(), "n10");
  spec_text(&R30::n11.name(), "n11");
  spec_text(&R30::n12.name(), "n12");
  spec_text(&R30::n13.name(), "n13");
  spec_text(&R30::n14.name(), "n14");
  spec_text(&R30::n15.name(), "n15");
  spec_text(&R30::n16.name(), "n16");
  spec_text(&R30::n17.name(), "n17");
  spec_text(&R30::n18.name(), "n18");
  spec_text(&R30::n19.name(), "n19");
  spec_text(&R30::n20.name(), "n20");
  spec_text(&R30::n21.name(), "n21");
  spec_text(&R30::n22.name(), "n22");
  spec_text(&R30::n23.name(), "n23");
  spec_text(&R30::n24.name(), "n24");
  spec_text(&R30::n25.name(), "n25");
  spec_text(&R30::n26.name(), "n26");
  spec_text(&R30::n27.name(), "n27");
  spec_text(&R30::n28.name(), "n28");
  spec_text(&R30::n29.name(), "n29");
  spec_text(&R30::n30.name(), "n30");
  spec_text(&R30::name(), "R30");
}

extern "C" void drv_init() {
  void *A = vf_token("left"), *B = vf_token("right"), *C = vf_token("more");
  sub::Free F(V<2>{B}, V<3>{C}, V<1>{A});
  vf_check(F[sub::Free::left].P == A, "a cell has the value it was given");
  vf_check(F[sub::Free::right].P == B, "a cell has the value it was given");
  vf_check(F[sub::Free::more].P == C, "a cell has the value it was given");
  sub::FreeRoot R(V<1>{A}, V<2>{B});
  vf_check(R[sub::FreeRoot::left].P == A, "a cell of a top-level object has the value it was given");
  vf_check(R[sub::FreeRoot::right].P == B, "a cell of a top-level object has the value it was given");
  spec_text(&R.getName(), "FreeRoot");
  const sub::FreeRoot Copy(R);
  vf_check(Copy[sub::FreeRoot::left].P == A && Copy[sub::FreeRoot::right].P == B, "a copy of an object has its values");
  spec_text(&Copy.getName(), "FreeRoot");
}

extern "C" void drv_object() {
  R2 X;
  spec_text(&X.getName(), "R2");
  json::Object *O = &X;
  vf_check(O->is<R2>(), "an object is of its own type");
  vf_check(!O->is<R3>(), "an object is of no type with another name");
  vf_check(&O->as<R2>() == &X, "as() gives the object itself");
  const json::Object *CO = O;
  vf_check(&CO->as<R2>() == &X, "as() gives the object itself");
  std::string S;
  spec_name(&S);
  json::Object Any(S);
  vf_check(Any.is<R2>() == spec_same(&S, &R2::name()), "an object is of a type if it has the name of the type");
  vf_check(spec_same(&Any.getName(), &S), "an object has the name it was given");
}
