// Written by tools/gen_enums.py. C23: the name of every value of many enumerations.
#include <cstring>
#include <cstdint>
#include <cstddef>
#include "symx.h"
#include "arpc/enum.h"
ARPC_ENUM(e_one, uint8_t, "unknown one", (only, 0));
ARPC_ENUM(e_one_high, uint8_t, "unknown one_high", (only, 200));
ARPC_ENUM(e_two, uint8_t, "unknown two", (second, 1), (first, 0));
ARPC_ENUM(e_three, int8_t, "unknown three", (lo, -128), (mid, 0), (hi, 127));
ARPC_ENUM(e_wide, int64_t, "unknown wide", (least, (-9223372036854775807LL - 1)), (minus, -1LL), (zero, 0LL), (one, 1LL), (t8, 256LL), (t16, 65536LL), (t32, 4294967296LL), (most, 9223372036854775807LL));
ARPC_ENUM(e_uwide, uint64_t, "unknown uwide", (none, 0ULL), (all, 18446744073709551615ULL), (half, 9223372036854775808ULL), (low, 4294967295ULL), (lowh, 2147483648ULL));
ARPC_ENUM(e_sint, int32_t, "unknown sint", (imin, (-2147483647 - 1)), (m1, -1), (imax, 2147483647), (z, 0));
ARPC_ENUM(e_uint, uint32_t, "unknown uint", (umax, 4294967295U), (uhalf, 2147483648U), (u0, 0U), (u7, 7U));
ARPC_ENUM(e_shrt, int16_t, "unknown shrt", (smin, -32768), (smax, 32767), (s5, 5), (s4, 4));
ARPC_ENUM(e_ushrt, uint16_t, "unknown ushrt", (c, 65535), (b, 32768), (a, 1));
ARPC_ENUM(e_chr, char, "unknown chr", (ca, 97), (cz, 122), (c0, 0), (cA, 65));
ARPC_ENUM(e_n4_down, uint16_t, "unknown n4_down", (name_0, 900), (n1, 897), (name_2, 894), (n3, 891));
ARPC_ENUM(e_n7_up, int16_t, "unknown n7_up", (name_0, -3), (n1, -2), (name_2, -1), (n3, 0), (name_4, 1), (n5, 2), (name_6, 3));
ARPC_ENUM(e_n8_scatter, uint16_t, "unknown n8_scatter", (name_0, 0), (n1, 7919), (name_2, 15838), (n3, 23757), (name_4, 31676), (n5, 39595), (name_6, 47514), (n7, 55433));
ARPC_ENUM(e_n9_byte, uint8_t, "unknown n9_byte", (name_0, 5), (n1, 172), (name_2, 83), (n3, 250), (name_4, 161), (n5, 72), (name_6, 239), (n7, 150), (name_8, 61));
ARPC_ENUM(e_n15_down, uint16_t, "unknown n15_down", (name_0, 900), (n1, 897), (name_2, 894), (n3, 891), (name_4, 888), (n5, 885), (name_6, 882), (n7, 879), (name_8, 876), (n9, 873), (name_10, 870), (n11, 867), (name_12, 864), (n13, 861), (name_14, 858));
ARPC_ENUM(e_n16_up, int16_t, "unknown n16_up", (name_0, -8), (n1, -7), (name_2, -6), (n3, -5), (name_4, -4), (n5, -3), (name_6, -2), (n7, -1), (name_8, 0), (n9, 1), (name_10, 2), (n11, 3), (name_12, 4), (n13, 5), (name_14, 6), (n15, 7));
ARPC_ENUM(e_n17_scatter, uint16_t, "unknown n17_scatter", (name_0, 0), (n1, 7919), (name_2, 15838), (n3, 23757), (name_4, 31676), (n5, 39595), (name_6, 47514), (n7, 55433), (name_8, 63352), (n9, 5735), (name_10, 13654), (n11, 21573), (name_12, 29492), (n13, 37411), (name_14, 45330), (n15, 53249), (name_16, 61168));
ARPC_ENUM(e_n31_byte, uint8_t, "unknown n31_byte", (name_0, 5), (n1, 172), (name_2, 83), (n3, 250), (name_4, 161), (n5, 72), (name_6, 239), (n7, 150), (name_8, 61), (n9, 228), (name_10, 139), (n11, 50), (name_12, 217), (n13, 128), (name_14, 39), (n15, 206), (name_16, 117), (n17, 28), (name_18, 195), (n19, 106), (name_20, 17), (n21, 184), (name_22, 95), (n23, 6), (name_24, 173), (n25, 84), (name_26, 251), (n27, 162), (name_28, 73), (n29, 240), (name_30, 151));
ARPC_ENUM(e_n32_down, uint16_t, "unknown n32_down", (name_0, 900), (n1, 897), (name_2, 894), (n3, 891), (name_4, 888), (n5, 885), (name_6, 882), (n7, 879), (name_8, 876), (n9, 873), (name_10, 870), (n11, 867), (name_12, 864), (n13, 861), (name_14, 858), (n15, 855), (name_16, 852), (n17, 849), (name_18, 846), (n19, 843), (name_20, 840), (n21, 837), (name_22, 834), (n23, 831), (name_24, 828), (n25, 825), (name_26, 822), (n27, 819), (name_28, 816), (n29, 813), (name_30, 810), (n31, 807));
ARPC_ENUM(e_n33_up, int16_t, "unknown n33_up", (name_0, -16), (n1, -15), (name_2, -14), (n3, -13), (name_4, -12), (n5, -11), (name_6, -10), (n7, -9), (name_8, -8), (n9, -7), (name_10, -6), (n11, -5), (name_12, -4), (n13, -3), (name_14, -2), (n15, -1), (name_16, 0), (n17, 1), (name_18, 2), (n19, 3), (name_20, 4), (n21, 5), (name_22, 6), (n23, 7), (name_24, 8), (n25, 9), (name_26, 10), (n27, 11), (name_28, 12), (n29, 13), (name_30, 14), (n31, 15), (name_32, 16));
ARPC_ENUM(e_n63_scatter, uint16_t, "unknown n63_scatter", (name_0, 0), (n1, 7919), (name_2, 15838), (n3, 23757), (name_4, 31676), (n5, 39595), (name_6, 47514), (n7, 55433), (name_8, 63352), (n9, 5735), (name_10, 13654), (n11, 21573), (name_12, 29492), (n13, 37411), (name_14, 45330), (n15, 53249), (name_16, 61168), (n17, 3551), (name_18, 11470), (n19, 19389), (name_20, 27308), (n21, 35227), (name_22, 43146), (n23, 51065), (name_24, 58984), (n25, 1367), (name_26, 9286), (n27, 17205), (name_28, 25124), (n29, 33043), (name_30, 40962), (n31, 48881), (name_32, 56800), (n33, 64719), (name_34, 7102), (n35, 15021), (name_36, 22940), (n37, 30859), (name_38, 38778), (n39, 46697), (name_40, 54616), (n41, 62535), (name_42, 4918), (n43, 12837), (name_44, 20756), (n45, 28675), (name_46, 36594), (n47, 44513), (name_48, 52432), (n49, 60351), (name_50, 2734), (n51, 10653), (name_52, 18572), (n53, 26491), (name_54, 34410), (n55, 42329), (name_56, 50248), (n57, 58167), (name_58, 550), (n59, 8469), (name_60, 16388), (n61, 24307), (name_62, 32226));
ARPC_ENUM(e_n64_byte, uint8_t, "unknown n64_byte", (name_0, 5), (n1, 172), (name_2, 83), (n3, 250), (name_4, 161), (n5, 72), (name_6, 239), (n7, 150), (name_8, 61), (n9, 228), (name_10, 139), (n11, 50), (name_12, 217), (n13, 128), (name_14, 39), (n15, 206), (name_16, 117), (n17, 28), (name_18, 195), (n19, 106), (name_20, 17), (n21, 184), (name_22, 95), (n23, 6), (name_24, 173), (n25, 84), (name_26, 251), (n27, 162), (name_28, 73), (n29, 240), (name_30, 151), (n31, 62), (name_32, 229), (n33, 140), (name_34, 51), (n35, 218), (name_36, 129), (n37, 40), (name_38, 207), (n39, 118), (name_40, 29), (n41, 196), (name_42, 107), (n43, 18), (name_44, 185), (n45, 96), (name_46, 7), (n47, 174), (name_48, 85), (n49, 252), (name_50, 163), (n51, 74), (name_52, 241), (n53, 152), (name_54, 63), (n55, 230), (name_56, 141), (n57, 52), (name_58, 219), (n59, 130), (name_60, 41), (n61, 208), (name_62, 119), (n63, 30));
ARPC_ENUM(e_n65_down, uint16_t, "unknown n65_down", (name_0, 900), (n1, 897), (name_2, 894), (n3, 891), (name_4, 888), (n5, 885), (name_6, 882), (n7, 879), (name_8, 876), (n9, 873), (name_10, 870), (n11, 867), (name_12, 864), (n13, 861), (name_14, 858), (n15, 855), (name_16, 852), (n17, 849), (name_18, 846), (n19, 843), (name_20, 840), (n21, 837), (name_22, 834), (n23, 831), (name_24, 828), (n25, 825), (name_26, 822), (n27, 819), (name_28, 816), (n29, 813), (name_30, 810), (n31, 807), (name_32, 804), (n33, 801), (name_34, 798), (n35, 795), (name_36, 792), (n37, 789), (name_38, 786), (n39, 783), (name_40, 780), (n41, 777), (name_42, 774), (n43, 771), (name_44, 768), (n45, 765), (name_46, 762), (n47, 759), (name_48, 756), (n49, 753), (name_50, 750), (n51, 747), (name_52, 744), (n53, 741), (name_54, 738), (n55, 735), (name_56, 732), (n57, 729), (name_58, 726), (n59, 723), (name_60, 720), (n61, 717), (name_62, 714), (n63, 711), (name_64, 708));
ARPC_ENUM(e_n100_up, int16_t, "unknown n100_up", (name_0, -50), (n1, -49), (name_2, -48), (n3, -47), (name_4, -46), (n5, -45), (name_6, -44), (n7, -43), (name_8, -42), (n9, -41), (name_10, -40), (n11, -39), (name_12, -38), (n13, -37), (name_14, -36), (n15, -35), (name_16, -34), (n17, -33), (name_18, -32), (n19, -31), (name_20, -30), (n21, -29), (name_22, -28), (n23, -27), (name_24, -26), (n25, -25), (name_26, -24), (n27, -23), (name_28, -22), (n29, -21), (name_30, -20), (n31, -19), (name_32, -18), (n33, -17), (name_34, -16), (n35, -15), (name_36, -14), (n37, -13), (name_38, -12), (n39, -11), (name_40, -10), (n41, -9), (name_42, -8), (n43, -7), (name_44, -6), (n45, -5), (name_46, -4), (n47, -3), (name_48, -2), (n49, -1), (name_50, 0), (n51, 1), (name_52, 2), (n53, 3), (name_54, 4), (n55, 5), (name_56, 6), (n57, 7), (name_58, 8), (n59, 9), (name_60, 10), (n61, 11), (name_62, 12), (n63, 13), (name_64, 14), (n65, 15), (name_66, 16), (n67, 17), (name_68, 18), (n69, 19), (name_70, 20), (n71, 21), (name_72, 22), (n73, 23), (name_74, 24), (n75, 25), (name_76, 26), (n77, 27), (name_78, 28), (n79, 29), (name_80, 30), (n81, 31), (name_82, 32), (n83, 33), (name_84, 34), (n85, 35), (name_86, 36), (n87, 37), (name_88, 38), (n89, 39), (name_90, 40), (n91, 41), (name_92, 42), (n93, 43), (name_94, 44), (n95, 45), (name_96, 46), (n97, 47), (name_98, 48), (n99, 49));
ARPC_ENUM(e_n127_scatter, uint16_t, "unknown n127_scatter", (name_0, 0), (n1, 7919), (name_2, 15838), (n3, 23757), (name_4, 31676), (n5, 39595), (name_6, 47514), (n7, 55433), (name_8, 63352), (n9, 5735), (name_10, 13654), (n11, 21573), (name_12, 29492), (n13, 37411), (name_14, 45330), (n15, 53249), (name_16, 61168), (n17, 3551), (name_18, 11470), (n19, 19389), (name_20, 27308), (n21, 35227), (name_22, 43146), (n23, 51065), (name_24, 58984), (n25, 1367), (name_26, 9286), (n27, 17205), (name_28, 25124), (n29, 33043), (name_30, 40962), (n31, 48881), (name_32, 56800), (n33, 64719), (name_34, 7102), (n35, 15021), (name_36, 22940), (n37, 30859), (name_38, 38778), (n39, 46697), (name_40, 54616), (n41, 62535), (name_42, 4918), (n43, 12837), (name_44, 20756), (n45, 28675), (name_46, 36594), (n47, 44513), (name_48, 52432), (n49, 60351), (name_50, 2734), (n51, 10653), (name_52, 18572), (n53, 26491), (name_54, 34410), (n55, 42329), (name_56, 50248), (n57, 58167), (name_58, 550), (n59, 8469), (name_60, 16388), (n61, 24307), (name_62, 32226), (n63, 40145), (name_64, 48064), (n65, 55983), (name_66, 63902), (n67, 6285), (name_68, 14204), (n69, 22123), (name_70, 30042), (n71, 37961), (name_72, 45880), (n73, 53799), (name_74, 61718), (n75, 4101), (name_76, 12020), (n77, 19939), (name_78, 27858), (n79, 35777), (name_80, 43696), (n81, 51615), (name_82, 59534), (n83, 1917), (name_84, 9836), (n85, 17755), (name_86, 25674), (n87, 33593), (name_88, 41512), (n89, 49431), (name_90, 57350), (n91, 65269), (name_92, 7652), (n93, 15571), (name_94, 23490), (n95, 31409), (name_96, 39328), (n97, 47247), (name_98, 55166), (n99, 63085), (name_100, 5468), (n101, 13387), (name_102, 21306), (n103, 29225), (name_104, 37144), (n105, 45063), (name_106, 52982), (n107, 60901), (name_108, 3284), (n109, 11203), (name_110, 19122), (n111, 27041), (name_112, 34960), (n113, 42879), (name_114, 50798), (n115, 58717), (name_116, 1100), (n117, 9019), (name_118, 16938), (n119, 24857), (name_120, 32776), (n121, 40695), (name_122, 48614), (n123, 56533), (name_124, 64452), (n125, 6835), (name_126, 14754));
ARPC_ENUM(e_n128_byte, uint8_t, "unknown n128_byte", (name_0, 5), (n1, 172), (name_2, 83), (n3, 250), (name_4, 161), (n5, 72), (name_6, 239), (n7, 150), (name_8, 61), (n9, 228), (name_10, 139), (n11, 50), (name_12, 217), (n13, 128), (name_14, 39), (n15, 206), (name_16, 117), (n17, 28), (name_18, 195), (n19, 106), (name_20, 17), (n21, 184), (name_22, 95), (n23, 6), (name_24, 173), (n25, 84), (name_26, 251), (n27, 162), (name_28, 73), (n29, 240), (name_30, 151), (n31, 62), (name_32, 229), (n33, 140), (name_34, 51), (n35, 218), (name_36, 129), (n37, 40), (name_38, 207), (n39, 118), (name_40, 29), (n41, 196), (name_42, 107), (n43, 18), (name_44, 185), (n45, 96), (name_46, 7), (n47, 174), (name_48, 85), (n49, 252), (name_50, 163), (n51, 74), (name_52, 241), (n53, 152), (name_54, 63), (n55, 230), (name_56, 141), (n57, 52), (name_58, 219), (n59, 130), (name_60, 41), (n61, 208), (name_62, 119), (n63, 30), (name_64, 197), (n65, 108), (name_66, 19), (n67, 186), (name_68, 97), (n69, 8), (name_70, 175), (n71, 86), (name_72, 253), (n73, 164), (name_74, 75), (n75, 242), (name_76, 153), (n77, 64), (name_78, 231), (n79, 142), (name_80, 53), (n81, 220), (name_82, 131), (n83, 42), (name_84, 209), (n85, 120), (name_86, 31), (n87, 198), (name_88, 109), (n89, 20), (name_90, 187), (n91, 98), (name_92, 9), (n93, 176), (name_94, 87), (n95, 254), (name_96, 165), (n97, 76), (name_98, 243), (n99, 154), (name_100, 65), (n101, 232), (name_102, 143), (n103, 54), (name_104, 221), (n105, 132), (name_106, 43), (n107, 210), (name_108, 121), (n109, 32), (name_110, 199), (n111, 110), (name_112, 21), (n113, 188), (name_114, 99), (n115, 10), (name_116, 177), (n117, 88), (name_118, 255), (n119, 166), (name_120, 77), (n121, 244), (name_122, 155), (n123, 66), (name_124, 233), (n125, 144), (name_126, 55), (n127, 222));
ARPC_ENUM(e_n129_down, uint16_t, "unknown n129_down", (name_0, 900), (n1, 897), (name_2, 894), (n3, 891), (name_4, 888), (n5, 885), (name_6, 882), (n7, 879), (name_8, 876), (n9, 873), (name_10, 870), (n11, 867), (name_12, 864), (n13, 861), (name_14, 858), (n15, 855), (name_16, 852), (n17, 849), (name_18, 846), (n19, 843), (name_20, 840), (n21, 837), (name_22, 834), (n23, 831), (name_24, 828), (n25, 825), (name_26, 822), (n27, 819), (name_28, 816), (n29, 813), (name_30, 810), (n31, 807), (name_32, 804), (n33, 801), (name_34, 798), (n35, 795), (name_36, 792), (n37, 789), (name_38, 786), (n39, 783), (name_40, 780), (n41, 777), (name_42, 774), (n43, 771), (name_44, 768), (n45, 765), (name_46, 762), (n47, 759), (name_48, 756), (n49, 753), (name_50, 750), (n51, 747), (name_52, 744), (n53, 741), (name_54, 738), (n55, 735), (name_56, 732), (n57, 729), (name_58, 726), (n59, 723), (name_60, 720), (n61, 717), (name_62, 714), (n63, 711), (name_64, 708), (n65, 705), (name_66, 702), (n67, 699), (name_68, 696), (n69, 693), (name_70, 690), (n71, 687), (name_72, 684), (n73, 681), (name_74, 678), (n75, 675), (name_76, 672), (n77, 669), (name_78, 666), (n79, 663), (name_80, 660), (n81, 657), (name_82, 654), (n83, 651), (name_84, 648), (n85, 645), (name_86, 642), (n87, 639), (name_88, 636), (n89, 633), (name_90, 630), (n91, 627), (name_92, 624), (n93, 621), (name_94, 618), (n95, 615), (name_96, 612), (n97, 609), (name_98, 606), (n99, 603), (name_100, 600), (n101, 597), (name_102, 594), (n103, 591), (name_104, 588), (n105, 585), (name_106, 582), (n107, 579), (name_108, 576), (n109, 573), (name_110, 570), (n111, 567), (name_112, 564), (n113, 561), (name_114, 558), (n115, 555), (name_116, 552), (n117, 549), (name_118, 546), (n119, 543), (name_120, 540), (n121, 537), (name_122, 534), (n123, 531), (name_124, 528), (n125, 525), (name_126, 522), (n127, 519), (name_128, 516));
ARPC_ENUM(e_n200_up, int16_t, "unknown n200_up", (name_0, -100), (n1, -99), (name_2, -98), (n3, -97), (name_4, -96), (n5, -95), (name_6, -94), (n7, -93), (name_8, -92), (n9, -91), (name_10, -90), (n11, -89), (name_12, -88), (n13, -87), (name_14, -86), (n15, -85), (name_16, -84), (n17, -83), (name_18, -82), (n19, -81), (name_20, -80), (n21, -79), (name_22, -78), (n23, -77), (name_24, -76), (n25, -75), (name_26, -74), (n27, -73), (name_28, -72), (n29, -71), (name_30, -70), (n31, -69), (name_32, -68), (n33, -67), (name_34, -66), (n35, -65), (name_36, -64), (n37, -63), (name_38, -62), (n39, -61), (name_40, -60), (n41, -59), (name_42, -58), (n43, -57), (name_44, -56), (n45, -55), (name_46, -54), (n47, -53), (name_48, -52), (n49, -51), (name_50, -50), (n51, -49), (name_52, -48), (n53, -47), (name_54, -46), (n55, -45), (name_56, -44), (n57, -43), (name_58, -42), (n59, -41), (name_60, -40), (n61, -39), (name_62, -38), (n63, -37), (name_64, -36), (n65, -35), (name_66, -34), (n67, -33), (name_68, -32), (n69, -31), (name_70, -30), (n71, -29), (name_72, -28), (n73, -27), (name_74, -26), (n75, -25), (name_76, -24), (n77, -23), (name_78, -22), (n79, -21), (name_80, -20), (n81, -19), (name_82, -18), (n83, -17), (name_84, -16), (n85, -15), (name_86, -14), (n87, -13), (name_88, -12), (n89, -11), (name_90, -10), (n91, -9), (name_92, -8), (n93, -7), (name_94, -6), (n95, -5), (name_96, -4), (n97, -3), (name_98, -2), (n99, -1), (name_100, 0), (n101, 1), (name_102, 2), (n103, 3), (name_104, 4), (n105, 5), (name_106, 6), (n107, 7), (name_108, 8), (n109, 9), (name_110, 10), (n111, 11), (name_112, 12), (n113, 13), (name_114, 14), (n115, 15), (name_116, 16), (n117, 17), (name_118, 18), (n119, 19), (name_120, 20), (n121, 21), (name_122, 22), (n123, 23), (name_124, 24), (n125, 25), (name_126, 26), (n127, 27), (name_128, 28), (n129, 29), (name_130, 30), (n131, 31), (name_132, 32), (n133, 33), (name_134, 34), (n135, 35), (name_136, 36), (n137, 37), (name_138, 38), (n139, 39), (name_140, 40), (n141, 41), (name_142, 42), (n143, 43), (name_144, 44), (n145, 45), (name_146, 46), (n147, 47), (name_148, 48), (n149, 49), (name_150, 50), (n151, 51), (name_152, 52), (n153, 53), (name_154, 54), (n155, 55), (name_156, 56), (n157, 57), (name_158, 58), (n159, 59), (name_160, 60), (n161, 61), (name_162, 62), (n163, 63), (name_164, 64), (n165, 65), (name_166, 66), (n167, 67), (name_168, 68), (n169, 69), (name_170, 70), (n171, 71), (name_172, 72), (n173, 73), (name_174, 74), (n175, 75), (name_176, 76), (n177, 77), (name_178, 78), (n179, 79), (name_180, 80), (n181, 81), (name_182, 82), (n183, 83), (name_184, 84), (n185, 85), (name_186, 86), (n187, 87), (name_188, 88), (n189, 89), (name_190, 90), (n191, 91), (name_192, 92), (n193, 93), (name_194, 94), (n195, 95), (name_196, 96), (n197, 97), (name_198, 98), (n199, 99));
ARPC_ENUM(e_n254_scatter, uint16_t, "unknown n254_scatter", (name_0, 0), (n1, 7919), (name_2, 15838), (n3, 23757), (name_4, 31676), (n5, 39595), (name_6, 47514), (n7, 55433), (name_8, 63352), (n9, 5735), (name_10, 13654), (n11, 21573), (name_12, 29492), (n13, 37411), (name_14, 45330), (n15, 53249), (name_16, 61168), (n17, 3551), (name_18, 11470), (n19, 19389), (name_20, 27308), (n21, 35227), (name_22, 43146), (n23, 51065), (name_24, 58984), (n25, 1367), (name_26, 9286), (n27, 17205), (name_28, 25124), (n29, 33043), (name_30, 40962), (n31, 48881), (name_32, 56800), (n33, 64719), (name_34, 7102), (n35, 15021), (name_36, 22940), (n37, 30859), (name_38, 38778), (n39, 46697), (name_40, 54616), (n41, 62535), (name_42, 4918), (n43, 12837), (name_44, 20756), (n45, 28675), (name_46, 36594), (n47, 44513), (name_48, 52432), (n49, 60351), (name_50, 2734), (n51, 10653), (name_52, 18572), (n53, 26491), (name_54, 34410), (n55, 42329), (name_56, 50248), (n57, 58167), (name_58, 550), (n59, 8469), (name_60, 16388), (n61, 24307), (name_62, 32226), (n63, 40145), (name_64, 48064), (n65, 55983), (name_66, 63902), (n67, 6285), (name_68, 14204), (n69, 22123), (name_70, 30042), (n71, 37961), (name_72, 45880), (n73, 53799), (name_74, 61718), (n75, 4101), (name_76, 12020), (n77, 19939), (name_78, 27858), (n79, 35777), (name_80, 43696), (n81, 51615), (name_82, 59534), (n83, 1917), (name_84, 9836), (n85, 17755), (name_86, 25674), (n87, 33593), (name_88, 41512), (n89, 49431), (name_90, 57350), (n91, 65269), (name_92, 7652), (n93, 15571), (name_94, 23490), (n95, 31409), (name_96, 39328), (n97, 47247), (name_98, 55166), (n99, 63085), (name_100, 5468), (n101, 13387), (name_102, 21306), (n103, 29225), (name_104, 37144), (n105, 45063), (name_106, 52982), (n107, 60901), (name_108, 3284), (n109, 11203), (name_110, 19122), (n111, 27041), (name_112, 34960), (n113, 42879), (name_114, 50798), (n115, 58717), (name_116, 1100), (n117, 9019), (name_118, 16938), (n119, 24857), (name_120, 32776), (n121, 40695), (name_122, 48614), (n123, 56533), (name_124, 64452), (n125, 6835), (name_126, 14754), (n127, 22673), (name_128, 30592), (n129, 38511), (name_130, 46430), (n131, 54349), (name_132, 62268), (n133, 4651), (name_134, 12570), (n135, 20489), (name_136, 28408), (n137, 36327), (name_138, 44246), (n139, 52165), (name_140, 60084), (n141, 2467), (name_142, 10386), (n143, 18305), (name_144, 26224), (n145, 34143), (name_146, 42062), (n147, 49981), (name_148, 57900), (n149, 283), (name_150, 8202), (n151, 16121), (name_152, 24040), (n153, 31959), (name_154, 39878), (n155, 47797), (name_156, 55716), (n157, 63635), (name_158, 6018), (n159, 13937), (name_160, 21856), (n161, 29775), (name_162, 37694), (n163, 45613), (name_164, 53532), (n165, 61451), (name_166, 3834), (n167, 11753), (name_168, 19672), (n169, 27591), (name_170, 35510), (n171, 43429), (name_172, 51348), (n173, 59267), (name_174, 1650), (n175, 9569), (name_176, 17488), (n177, 25407), (name_178, 33326), (n179, 41245), (name_180, 49164), (n181, 57083), (name_182, 65002), (n183, 7385), (name_184, 15304), (n185, 23223), (name_186, 31142), (n187, 39061), (name_188, 46980), (n189, 54899), (name_190, 62818), (n191, 5201), (name_192, 13120), (n193, 21039), (name_194, 28958), (n195, 36877), (name_196, 44796), (n197, 52715), (name_198, 60634), (n199, 3017), (name_200, 10936), (n201, 18855), (name_202, 26774), (n203, 34693), (name_204, 42612), (n205, 50531), (name_206, 58450), (n207, 833), (name_208, 8752), (n209, 16671), (name_210, 24590), (n211, 32509), (name_212, 40428), (n213, 48347), (name_214, 56266), (n215, 64185), (name_216, 6568), (n217, 14487), (name_218, 22406), (n219, 30325), (name_220, 38244), (n221, 46163), (name_222, 54082), (n223, 62001), (name_224, 4384), (n225, 12303), (name_226, 20222), (n227, 28141), (name_228, 36060), (n229, 43979), (name_230, 51898), (n231, 59817), (name_232, 2200), (n233, 10119), (name_234, 18038), (n235, 25957), (name_236, 33876), (n237, 41795), (name_238, 49714), (n239, 57633), (name_240, 16), (n241, 7935), (name_242, 15854), (n243, 23773), (name_244, 31692), (n245, 39611), (name_246, 47530), (n247, 55449), (name_248, 63368), (n249, 5751), (name_250, 13670), (n251, 21589), (name_252, 29508), (n253, 37427));
ARPC_ENUM(e_n255_byte, uint8_t, "unknown n255_byte", (name_0, 5), (n1, 172), (name_2, 83), (n3, 250), (name_4, 161), (n5, 72), (name_6, 239), (n7, 150), (name_8, 61), (n9, 228), (name_10, 139), (n11, 50), (name_12, 217), (n13, 128), (name_14, 39), (n15, 206), (name_16, 117), (n17, 28), (name_18, 195), (n19, 106), (name_20, 17), (n21, 184), (name_22, 95), (n23, 6), (name_24, 173), (n25, 84), (name_26, 251), (n27, 162), (name_28, 73), (n29, 240), (name_30, 151), (n31, 62), (name_32, 229), (n33, 140), (name_34, 51), (n35, 218), (name_36, 129), (n37, 40), (name_38, 207), (n39, 118), (name_40, 29), (n41, 196), (name_42, 107), (n43, 18), (name_44, 185), (n45, 96), (name_46, 7), (n47, 174), (name_48, 85), (n49, 252), (name_50, 163), (n51, 74), (name_52, 241), (n53, 152), (name_54, 63), (n55, 230), (name_56, 141), (n57, 52), (name_58, 219), (n59, 130), (name_60, 41), (n61, 208), (name_62, 119), (n63, 30), (name_64, 197), (n65, 108), (name_66, 19), (n67, 186), (name_68, 97), (n69, 8), (name_70, 175), (n71, 86), (name_72, 253), (n73, 164), (name_74, 75), (n75, 242), (name_76, 153), (n77, 64), (name_78, 231), (n79, 142), (name_80, 53), (n81, 220), (name_82, 131), (n83, 42), (name_84, 209), (n85, 120), (name_86, 31), (n87, 198), (name_88, 109), (n89, 20), (name_90, 187), (n91, 98), (name_92, 9), (n93, 176), (name_94, 87), (n95, 254), (name_96, 165), (n97, 76), (name_98, 243), (n99, 154), (name_100, 65), (n101, 232), (name_102, 143), (n103, 54), (name_104, 221), (n105, 132), (name_106, 43), (n107, 210), (name_108, 121), (n109, 32), (name_110, 199), (n111, 110), (name_112, 21), (n113, 188), (name_114, 99), (n115, 10), (name_116, 177), (n117, 88), (name_118, 255), (n119, 166), (name_120, 77), (n121, 244), (name_122, 155), (n123, 66), (name_124, 233), (n125, 144), (name_126, 55), (n127, 222), (name_128, 133), (n129, 44), (name_130, 211), (n131, 122), (name_132, 33), (n133, 200), (name_134, 111), (n135, 22), (name_136, 189), (n137, 100), (name_138, 11), (n139, 178), (name_140, 89), (n141, 0), (name_142, 167), (n143, 78), (name_144, 245), (n145, 156), (name_146, 67), (n147, 234), (name_148, 145), (n149, 56), (name_150, 223), (n151, 134), (name_152, 45), (n153, 212), (name_154, 123), (n155, 34), (name_156, 201), (n157, 112), (name_158, 23), (n159, 190), (name_160, 101), (n161, 12), (name_162, 179), (n163, 90), (name_164, 1), (n165, 168), (name_166, 79), (n167, 246), (name_168, 157), (n169, 68), (name_170, 235), (n171, 146), (name_172, 57), (n173, 224), (name_174, 135), (n175, 46), (name_176, 213), (n177, 124), (name_178, 35), (n179, 202), (name_180, 113), (n181, 24), (name_182, 191), (n183, 102), (name_184, 13), (n185, 180), (name_186, 91), (n187, 2), (name_188, 169), (n189, 80), (name_190, 247), (n191, 158), (name_192, 69), (n193, 236), (name_194, 147), (n195, 58), (name_196, 225), (n197, 136), (name_198, 47), (n199, 214), (name_200, 125), (n201, 36), (name_202, 203), (n203, 114), (name_204, 25), (n205, 192), (name_206, 103), (n207, 14), (name_208, 181), (n209, 92), (name_210, 3), (n211, 170), (name_212, 81), (n213, 248), (name_214, 159), (n215, 70), (name_216, 237), (n217, 148), (name_218, 59), (n219, 226), (name_220, 137), (n221, 48), (name_222, 215), (n223, 126), (name_224, 37), (n225, 204), (name_226, 115), (n227, 26), (name_228, 193), (n229, 104), (name_230, 15), (n231, 182), (name_232, 93), (n233, 4), (name_234, 171), (n235, 82), (name_236, 249), (n237, 160), (name_238, 71), (n239, 238), (name_240, 149), (n241, 60), (name_242, 227), (n243, 138), (name_244, 49), (n245, 216), (name_246, 127), (n247, 38), (name_248, 205), (n249, 116), (name_250, 27), (n251, 194), (name_252, 105), (n253, 16), (name_254, 183));
template <typename U> struct entry { U v; const char* name; };
template <typename T, size_t N> static void all(const char* fallback, const entry<std::underlying_type_t<T>> (&declared)[N]) {
  std::underlying_type_t<T> v; symx_bytes(&v, sizeof v, "value");
  const char* got = arpc::enum_names<T>::name(static_cast<T>(v));
  const char* want = fallback;
  for (auto& d : declared) if (v == d.v) want = d.name;
  CHECK(strcmp(got, want) == 0, "the declared name of the value, or the fallback");
  symx_reach(want == fallback ? "fallback" : "named");
}
static void c_one() { static const entry<uint8_t> d[] = {{0, "only"}}; all<e_one>("unknown one", d); }
static void c_one_high() { static const entry<uint8_t> d[] = {{200, "only"}}; all<e_one_high>("unknown one_high", d); }
static void c_two() { static const entry<uint8_t> d[] = {{1, "second"}, {0, "first"}}; all<e_two>("unknown two", d); }
static void c_three() { static const entry<int8_t> d[] = {{-128, "lo"}, {0, "mid"}, {127, "hi"}}; all<e_three>("unknown three", d); }
static void c_wide() { static const entry<int64_t> d[] = {{(-9223372036854775807LL - 1), "least"}, {-1LL, "minus"}, {0LL, "zero"}, {1LL, "one"}, {256LL, "t8"}, {65536LL, "t16"}, {4294967296LL, "t32"}, {9223372036854775807LL, "most"}}; all<e_wide>("unknown wide", d); }
static void c_uwide() { static const entry<uint64_t> d[] = {{0ULL, "none"}, {18446744073709551615ULL, "all"}, {9223372036854775808ULL, "half"}, {4294967295ULL, "low"}, {2147483648ULL, "lowh"}}; all<e_uwide>("unknown uwide", d); }
static void c_sint() { static const entry<int32_t> d[] = {{(-2147483647 - 1), "imin"}, {-1, "m1"}, {2147483647, "imax"}, {0, "z"}}; all<e_sint>("unknown sint", d); }
static void c_uint() { static const entry<uint32_t> d[] = {{4294967295U, "umax"}, {2147483648U, "uhalf"}, {0U, "u0"}, {7U, "u7"}}; all<e_uint>("unknown uint", d); }
static void c_shrt() { static const entry<int16_t> d[] = {{-32768, "smin"}, {32767, "smax"}, {5, "s5"}, {4, "s4"}}; all<e_shrt>("unknown shrt", d); }
static void c_ushrt() { static const entry<uint16_t> d[] = {{65535, "c"}, {32768, "b"}, {1, "a"}}; all<e_ushrt>("unknown ushrt", d); }
static void c_chr() { static const entry<char> d[] = {{97, "ca"}, {122, "cz"}, {0, "c0"}, {65, "cA"}}; all<e_chr>("unknown chr", d); }
static void c_n4_down() { static const entry<uint16_t> d[] = {{900, "name_0"}, {897, "n1"}, {894, "name_2"}, {891, "n3"}}; all<e_n4_down>("unknown n4_down", d); }
static void c_n7_up() { static const entry<int16_t> d[] = {{-3, "name_0"}, {-2, "n1"}, {-1, "name_2"}, {0, "n3"}, {1, "name_4"}, {2, "n5"}, {3, "name_6"}}; all<e_n7_up>("unknown n7_up", d); }
static void c_n8_scatter() { static const entry<uint16_t> d[] = {{0, "name_0"}, {7919, "n1"}, {15838, "name_2"}, {23757, "n3"}, {31676, "name_4"}, {39595, "n5"}, {47514, "name_6"}, {55433, "n7"}}; all<e_n8_scatter>("unknown n8_scatter", d); }
static void c_n9_byte() { static const entry<uint8_t> d[] = {{5, "name_0"}, {172, "n1"}, {83, "name_2"}, {250, "n3"}, {161, "name_4"}, {72, "n5"}, {239, "name_6"}, {150, "n7"}, {61, "name_8"}}; all<e_n9_byte>("unknown n9_byte", d); }
static void c_n15_down() { static const entry<uint16_t> d[] = {{900, "name_0"}, {897, "n1"}, {894, "name_2"}, {891, "n3"}, {888, "name_4"}, {885, "n5"}, {882, "name_6"}, {879, "n7"}, {876, "name_8"}, {873, "n9"}, {870, "name_10"}, {867, "n11"}, {864, "name_12"}, {861, "n13"}, {858, "name_14"}}; all<e_n15_down>("unknown n15_down", d); }
static void c_n16_up() { static const entry<int16_t> d[] = {{-8, "name_0"}, {-7, "n1"}, {-6, "name_2"}, {-5, "n3"}, {-4, "name_4"}, {-3, "n5"}, {-2, "name_6"}, {-1, "n7"}, {0, "name_8"}, {1, "n9"}, {2, "name_10"}, {3, "n11"}, {4, "name_12"}, {5, "n13"}, {6, "name_14"}, {7, "n15"}}; all<e_n16_up>("unknown n16_up", d); }
static void c_n17_scatter() { static const entry<uint16_t> d[] = {{0, "name_0"}, {7919, "n1"}, {15838, "name_2"}, {23757, "n3"}, {31676, "name_4"}, {39595, "n5"}, {47514, "name_6"}, {55433, "n7"}, {63352, "name_8"}, {5735, "n9"}, {13654, "name_10"}, {21573, "n11"}, {29492, "name_12"}, {37411, "n13"}, {45330, "name_14"}, {53249, "n15"}, {61168, "name_16"}}; all<e_n17_scatter>("unknown n17_scatter", d); }
static void c_n31_byte() { static const entry<uint8_t> d[] = {{5, "name_0"}, {172, "n1"}, {83, "name_2"}, {250, "n3"}, {161, "name_4"}, {72, "n5"}, {239, "name_6"}, {150, "n7"}, {61, "name_8"}, {228, "n9"}, {139, "name_10"}, {50, "n11"}, {217, "name_12"}, {128, "n13"}, {39, "name_14"}, {206, "n15"}, {117, "name_16"}, {28, "n17"}, {195, "name_18"}, {106, "n19"}, {17, "name_20"}, {184, "n21"}, {95, "name_22"}, {6, "n23"}, {173, "name_24"}, {84, "n25"}, {251, "name_26"}, {162, "n27"}, {73, "name_28"}, {240, "n29"}, {151, "name_30"}}; all<e_n31_byte>("unknown n31_byte", d); }
static void c_n32_down() { static const entry<uint16_t> d[] = {{900, "name_0"}, {897, "n1"}, {894, "name_2"}, {891, "n3"}, {888, "name_4"}, {885, "n5"}, {882, "name_6"}, {879, "n7"}, {876, "name_8"}, {873, "n9"}, {870, "name_10"}, {867, "n11"}, {864, "name_12"}, {861, "n13"}, {858, "name_14"}, {855, "n15"}, {852, "name_16"}, {849, "n17"}, {846, "name_18"}, {843, "n19"}, {840, "name_20"}, {837, "n21"}, {834, "name_22"}, {831, "n23"}, {828, "name_24"}, {825, "n25"}, {822, "name_26"}, {819, "n27"}, {816, "name_28"}, {813, "n29"}, {810, "name_30"}, {807, "n31"}}; all<e_n32_down>("unknown n32_down", d); }
static void c_n33_up() { static const entry<int16_t> d[] = {{-16, "name_0"}, {-15, "n1"}, {-14, "name_2"}, {-13, "n3"}, {-12, "name_4"}, {-11, "n5"}, {-10, "name_6"}, {-9, "n7"}, {-8, "name_8"}, {-7, "n9"}, {-6, "name_10"}, {-5, "n11"}, {-4, "name_12"}, {-3, "n13"}, {-2, "name_14"}, {-1, "n15"}, {0, "name_16"}, {1, "n17"}, {2, "name_18"}, {3, "n19"}, {4, "name_20"}, {5, "n21"}, {6, "name_22"}, {7, "n23"}, {8, "name_24"}, {9, "n25"}, {10, "name_26"}, {11, "n27"}, {12, "name_28"}, {13, "n29"}, {14, "name_30"}, {15, "n31"}, {16, "name_32"}}; all<e_n33_up>("unknown n33_up", d); }
static void c_n63_scatter() { static const entry<uint16_t> d[] = {{0, "name_0"}, {7919, "n1"}, {15838, "name_2"}, {23757, "n3"}, {31676, "name_4"}, {39595, "n5"}, {47514, "name_6"}, {55433, "n7"}, {63352, "name_8"}, {5735, "n9"}, {13654, "name_10"}, {21573, "n11"}, {29492, "name_12"}, {37411, "n13"}, {45330, "name_14"}, {53249, "n15"}, {61168, "name_16"}, {3551, "n17"}, {11470, "name_18"}, {19389, "n19"}, {27308, "name_20"}, {35227, "n21"}, {43146, "name_22"}, {51065, "n23"}, {58984, "name_24"}, {1367, "n25"}, {9286, "name_26"}, {17205, "n27"}, {25124, "name_28"}, {33043, "n29"}, {40962, "name_30"}, {48881, "n31"}, {56800, "name_32"}, {64719, "n33"}, {7102, "name_34"}, {15021, "n35"}, {22940, "name_36"}, {30859, "n37"}, {38778, "name_38"}, {46697, "n39"}, {54616, "name_40"}, {62535, "n41"}, {4918, "name_42"}, {12837, "n43"}, {20756, "name_44"}, {28675, "n45"}, {36594, "name_46"}, {44513, "n47"}, {52432, "name_48"}, {60351, "n49"}, {2734, "name_50"}, {10653, "n51"}, {18572, "name_52"}, {26491, "n53"}, {34410, "name_54"}, {42329, "n55"}, {50248, "name_56"}, {58167, "n57"}, {550, "name_58"}, {8469, "n59"}, {16388, "name_60"}, {24307, "n61"}, {32226, "name_62"}}; all<e_n63_scatter>("unknown n63_scatter", d); }
static void c_n64_byte() { static const entry<uint8_t> d[] = {{5, "name_0"}, {172, "n1"}, {83, "name_2"}, {250, "n3"}, {161, "name_4"}, {72, "n5"}, {239, "name_6"}, {150, "n7"}, {61, "name_8"}, {228, "n9"}, {139, "name_10"}, {50, "n11"}, {217, "name_12"}, {128, "n13"}, {39, "name_14"}, {206, "n15"}, {117, "name_16"}, {28, "n17"}, {195, "name_18"}, {106, "n19"}, {17, "name_20"}, {184, "n21"}, {95, "name_22"}, {6, "n23"}, {173, "name_24"}, {84, "n25"}, {251, "name_26"}, {162, "n27"}, {73, "name_28"}, {240, "n29"}, {151, "name_30"}, {62, "n31"}, {229, "name_32"}, {140, "n33"}, {51, "name_34"}, {218, "n35"}, {129, "name_36"}, {40, "n37"}, {207, "name_38"}, {118, "n39"}, {29, "name_40"}, {196, "n41"}, {107, "name_42"}, {18, "n43"}, {185, "name_44"}, {96, "n45"}, {7, "name_46"}, {174, "n47"}, {85, "name_48"}, {252, "n49"}, {163, "name_50"}, {74, "n51"}, {241, "name_52"}, {152, "n53"}, {63, "name_54"}, {230, "n55"}, {141, "name_56"}, {52, "n57"}, {219, "name_58"}, {130, "n59"}, {41, "name_60"}, {208, "n61"}, {119, "name_62"}, {30, "n63"}}; all<e_n64_byte>("unknown n64_byte", d); }
static void c_n65_down() { static const entry<uint16_t> d[] = {{900, "name_0"}, {897, "n1"}, {894, "name_2"}, {891, "n3"}, {888, "name_4"}, {885, "n5"}, {882, "name_6"}, {879, "n7"}, {876, "name_8"}, {873, "n9"}, {870, "name_10"}, {867, "n11"}, {864, "name_12"}, {861, "n13"}, {858, "name_14"}, {855, "n15"}, {852, "name_16"}, {849, "n17"}, {846, "name_18"}, {843, "n19"}, {840, "name_20"}, {837, "n21"}, {834, "name_22"}, {831, "n23"}, {828, "name_24"}, {825, "n25"}, {822, "name_26"}, {819, "n27"}, {816, "name_28"}, {813, "n29"}, {810, "name_30"}, {807, "n31"}, {804, "name_32"}, {801, "n33"}, {798, "name_34"}, {795, "n35"}, {792, "name_36"}, {789, "n37"}, {786, "name_38"}, {783, "n39"}, {780, "name_40"}, {777, "n41"}, {774, "name_42"}, {771, "n43"}, {768, "name_44"}, {765, "n45"}, {762, "name_46"}, {759, "n47"}, {756, "name_48"}, {753, "n49"}, {750, "name_50"}, {747, "n51"}, {744, "name_52"}, {741, "n53"}, {738, "name_54"}, {735, "n55"}, {732, "name_56"}, {729, "n57"}, {726, "name_58"}, {723, "n59"}, {720, "name_60"}, {717, "n61"}, {714, "name_62"}, {711, "n63"}, {708, "name_64"}}; all<e_n65_down>("unknown n65_down", d); }
static void c_n100_up() { static const entry<int16_t> d[] = {{-50, "name_0"}, {-49, "n1"}, {-48, "name_2"}, {-47, "n3"}, {-46, "name_4"}, {-45, "n5"}, {-44, "name_6"}, {-43, "n7"}, {-42, "name_8"}, {-41, "n9"}, {-40, "name_10"}, {-39, "n11"}, {-38, "name_12"}, {-37, "n13"}, {-36, "name_14"}, {-35, "n15"}, {-34, "name_16"}, {-33, "n17"}, {-32, "name_18"}, {-31, "n19"}, {-30, "name_20"}, {-29, "n21"}, {-28, "name_22"}, {-27, "n23"}, {-26, "name_24"}, {-25, "n25"}, {-24, "name_26"}, {-23, "n27"}, {-22, "name_28"}, {-21, "n29"}, {-20, "name_30"}, {-19, "n31"}, {-18, "name_32"}, {-17, "n33"}, {-16, "name_34"}, {-15, "n35"}, {-14, "name_36"}, {-13, "n37"}, {-12, "name_38"}, {-11, "n39"}, {-10, "name_40"}, {-9, "n41"}, {-8, "name_42"}, {-7, "n43"}, {-6, "name_44"}, {-5, "n45"}, {-4, "name_46"}, {-3, "n47"}, {-2, "name_48"}, {-1, "n49"}, {0, "name_50"}, {1, "n51"}, {2, "name_52"}, {3, "n53"}, {4, "name_54"}, {5, "n55"}, {6, "name_56"}, {7, "n57"}, {8, "name_58"}, {9, "n59"}, {10, "name_60"}, {11, "n61"}, {12, "name_62"}, {13, "n63"}, {14, "name_64"}, {15, "n65"}, {16, "name_66"}, {17, "n67"}, {18, "name_68"}, {19, "n69"}, {20, "name_70"}, {21, "n71"}, {22, "name_72"}, {23, "n73"}, {24, "name_74"}, {25, "n75"}, {26, "name_76"}, {27, "n77"}, {28, "name_78"}, {29, "n79"}, {30, "name_80"}, {31, "n81"}, {32, "name_82"}, {33, "n83"}, {34, "name_84"}, {35, "n85"}, {36, "name_86"}, {37, "n87"}, {38, "name_88"}, {39, "n89"}, {40, "name_90"}, {41, "n91"}, {42, "name_92"}, {43, "n93"}, {44, "name_94"}, {45, "n95"}, {46, "name_96"}, {47, "n97"}, {48, "name_98"}, {49, "n99"}}; all<e_n100_up>("unknown n100_up", d); }
static void c_n127_scatter() { static const entry<uint16_t> d[] = {{0, "name_0"}, {7919, "n1"}, {15838, "name_2"}, {23757, "n3"}, {31676, "name_4"}, {39595, "n5"}, {47514, "name_6"}, {55433, "n7"}, {63352, "name_8"}, {5735, "n9"}, {13654, "name_10"}, {21573, "n11"}, {29492, "name_12"}, {37411, "n13"}, {45330, "name_14"}, {53249, "n15"}, {61168, "name_16"}, {3551, "n17"}, {11470, "name_18"}, {19389, "n19"}, {27308, "name_20"}, {35227, "n21"}, {43146, "name_22"}, {51065, "n23"}, {58984, "name_24"}, {1367, "n25"}, {9286, "name_26"}, {17205, "n27"}, {25124, "name_28"}, {33043, "n29"}, {40962, "name_30"}, {48881, "n31"}, {56800, "name_32"}, {64719, "n33"}, {7102, "name_34"}, {15021, "n35"}, {22940, "name_36"}, {30859, "n37"}, {38778, "name_38"}, {46697, "n39"}, {54616, "name_40"}, {62535, "n41"}, {4918, "name_42"}, {12837, "n43"}, {20756, "name_44"}, {28675, "n45"}, {36594, "name_46"}, {44513, "n47"}, {52432, "name_48"}, {60351, "n49"}, {2734, "name_50"}, {10653, "n51"}, {18572, "name_52"}, {26491, "n53"}, {34410, "name_54"}, {42329, "n55"}, {50248, "name_56"}, {58167, "n57"}, {550, "name_58"}, {8469, "n59"}, {16388, "name_60"}, {24307, "n61"}, {32226, "name_62"}, {40145, "n63"}, {48064, "name_64"}, {55983, "n65"}, {63902, "name_66"}, {6285, "n67"}, {14204, "name_68"}, {22123, "n69"}, {30042, "name_70"}, {37961, "n71"}, {45880, "name_72"}, {53799, "n73"}, {61718, "name_74"}, {4101, "n75"}, {12020, "name_76"}, {19939, "n77"}, {27858, "name_78"}, {35777, "n79"}, {43696, "name_80"}, {51615, "n81"}, {59534, "name_82"}, {1917, "n83"}, {9836, "name_84"}, {17755, "n85"}, {25674, "name_86"}, {33593, "n87"}, {41512, "name_88"}, {49431, "n89"}, {57350, "name_90"}, {65269, "n91"}, {7652, "name_92"}, {15571, "n93"}, {23490, "name_94"}, {31409, "n95"}, {39328, "name_96"}, {47247, "n97"}, {55166, "name_98"}, {63085, "n99"}, {5468, "name_100"}, {13387, "n101"}, {21306, "name_102"}, {29225, "n103"}, {37144, "name_104"}, {45063, "n105"}, {52982, "name_106"}, {60901, "n107"}, {3284, "name_108"}, {11203, "n109"}, {19122, "name_110"}, {27041, "n111"}, {34960, "name_112"}, {42879, "n113"}, {50798, "name_114"}, {58717, "n115"}, {1100, "name_116"}, {9019, "n117"}, {16938, "name_118"}, {24857, "n119"}, {32776, "name_120"}, {40695, "n121"}, {48614, "name_122"}, {56533, "n123"}, {64452, "name_124"}, {6835, "n125"}, {14754, "name_126"}}; all<e_n127_scatter>("unknown n127_scatter", d); }
static void c_n128_byte() { static const entry<uint8_t> d[] = {{5, "name_0"}, {172, "n1"}, {83, "name_2"}, {250, "n3"}, {161, "name_4"}, {72, "n5"}, {239, "name_6"}, {150, "n7"}, {61, "name_8"}, {228, "n9"}, {139, "name_10"}, {50, "n11"}, {217, "name_12"}, {128, "n13"}, {39, "name_14"}, {206, "n15"}, {117, "name_16"}, {28, "n17"}, {195, "name_18"}, {106, "n19"}, {17, "name_20"}, {184, "n21"}, {95, "name_22"}, {6, "n23"}, {173, "name_24"}, {84, "n25"}, {251, "name_26"}, {162, "n27"}, {73, "name_28"}, {240, "n29"}, {151, "name_30"}, {62, "n31"}, {229, "name_32"}, {140, "n33"}, {51, "name_34"}, {218, "n35"}, {129, "name_36"}, {40, "n37"}, {207, "name_38"}, {118, "n39"}, {29, "name_40"}, {196, "n41"}, {107, "name_42"}, {18, "n43"}, {185, "name_44"}, {96, "n45"}, {7, "name_46"}, {174, "n47"}, {85, "name_48"}, {252, "n49"}, {163, "name_50"}, {74, "n51"}, {241, "name_52"}, {152, "n53"}, {63, "name_54"}, {230, "n55"}, {141, "name_56"}, {52, "n57"}, {219, "name_58"}, {130, "n59"}, {41, "name_60"}, {208, "n61"}, {119, "name_62"}, {30, "n63"}, {197, "name_64"}, {108, "n65"}, {19, "name_66"}, {186, "n67"}, {97, "name_68"}, {8, "n69"}, {175, "name_70"}, {86, "n71"}, {253, "name_72"}, {164, "n73"}, {75, "name_74"}, {242, "n75"}, {153, "name_76"}, {64, "n77"}, {231, "name_78"}, {142, "n79"}, {53, "name_80"}, {220, "n81"}, {131, "name_82"}, {42, "n83"}, {209, "name_84"}, {120, "n85"}, {31, "name_86"}, {198, "n87"}, {109, "name_88"}, {20, "n89"}, {187, "name_90"}, {98, "n91"}, {9, "name_92"}, {176, "n93"}, {87, "name_94"}, {254, "n95"}, {165, "name_96"}, {76, "n97"}, {243, "name_98"}, {154, "n99"}, {65, "name_100"}, {232, "n101"}, {143, "name_102"}, {54, "n103"}, {221, "name_104"}, {132, "n105"}, {43, "name_106"}, {210, "n107"}, {121, "name_108"}, {32, "n109"}, {199, "name_110"}, {110, "n111"}, {21, "name_112"}, {188, "n113"}, {99, "name_114"}, {10, "n115"}, {177, "name_116"}, {88, "n117"}, {255, "name_118"}, {166, "n119"}, {77, "name_120"}, {244, "n121"}, {155, "name_122"}, {66, "n123"}, {233, "name_124"}, {144, "n125"}, {55, "name_126"}, {222, "n127"}}; all<e_n128_byte>("unknown n128_byte", d); }
static void c_n129_down() { static const entry<uint16_t> d[] = {{900, "name_0"}, {897, "n1"}, {894, "name_2"}, {891, "n3"}, {888, "name_4"}, {885, "n5"}, {882, "name_6"}, {879, "n7"}, {876, "name_8"}, {873, "n9"}, {870, "name_10"}, {867, "n11"}, {864, "name_12"}, {861, "n13"}, {858, "name_14"}, {855, "n15"}, {852, "name_16"}, {849, "n17"}, {846, "name_18"}, {843, "n19"}, {840, "name_20"}, {837, "n21"}, {834, "name_22"}, {831, "n23"}, {828, "name_24"}, {825, "n25"}, {822, "name_26"}, {819, "n27"}, {816, "name_28"}, {813, "n29"}, {810, "name_30"}, {807, "n31"}, {804, "name_32"}, {801, "n33"}, {798, "name_34"}, {795, "n35"}, {792, "name_36"}, {789, "n37"}, {786, "name_38"}, {783, "n39"}, {780, "name_40"}, {777, "n41"}, {774, "name_42"}, {771, "n43"}, {768, "name_44"}, {765, "n45"}, {762, "name_46"}, {759, "n47"}, {756, "name_48"}, {753, "n49"}, {750, "name_50"}, {747, "n51"}, {744, "name_52"}, {741, "n53"}, {738, "name_54"}, {735, "n55"}, {732, "name_56"}, {729, "n57"}, {726, "name_58"}, {723, "n59"}, {720, "name_60"}, {717, "n61"}, {714, "name_62"}, {711, "n63"}, {708, "name_64"}, {705, "n65"}, {702, "name_66"}, {699, "n67"}, {696, "name_68"}, {693, "n69"}, {690, "name_70"}, {687, "n71"}, {684, "name_72"}, {681, "n73"}, {678, "name_74"}, {675, "n75"}, {672, "name_76"}, {669, "n77"}, {666, "name_78"}, {663, "n79"}, {660, "name_80"}, {657, "n81"}, {654, "name_82"}, {651, "n83"}, {648, "name_84"}, {645, "n85"}, {642, "name_86"}, {639, "n87"}, {636, "name_88"}, {633, "n89"}, {630, "name_90"}, {627, "n91"}, {624, "name_92"}, {621, "n93"}, {618, "name_94"}, {615, "n95"}, {612, "name_96"}, {609, "n97"}, {606, "name_98"}, {603, "n99"}, {600, "name_100"}, {597, "n101"}, {594, "name_102"}, {591, "n103"}, {588, "name_104"}, {585, "n105"}, {582, "name_106"}, {579, "n107"}, {576, "name_108"}, {573, "n109"}, {570, "name_110"}, {567, "n111"}, {564, "name_112"}, {561, "n113"}, {558, "name_114"}, {555, "n115"}, {552, "name_116"}, {549, "n117"}, {546, "name_118"}, {543, "n119"}, {540, "name_120"}, {537, "n121"}, {534, "name_122"}, {531, "n123"}, {528, "name_124"}, {525, "n125"}, {522, "name_126"}, {519, "n127"}, {516, "name_128"}}; all<e_n129_down>("unknown n129_down", d); }
static void c_n200_up() { static const entry<int16_t> d[] = {{-100, "name_0"}, {-99, "n1"}, {-98, "name_2"}, {-97, "n3"}, {-96, "name_4"}, {-95, "n5"}, {-94, "name_6"}, {-93, "n7"}, {-92, "name_8"}, {-91, "n9"}, {-90, "name_10"}, {-89, "n11"}, {-88, "name_12"}, {-87, "n13"}, {-86, "name_14"}, {-85, "n15"}, {-84, "name_16"}, {-83, "n17"}, {-82, "name_18"}, {-81, "n19"}, {-80, "name_20"}, {-79, "n21"}, {-78, "name_22"}, {-77, "n23"}, {-76, "name_24"}, {-75, "n25"}, {-74, "name_26"}, {-73, "n27"}, {-72, "name_28"}, {-71, "n29"}, {-70, "name_30"}, {-69, "n31"}, {-68, "name_32"}, {-67, "n33"}, {-66, "name_34"}, {-65, "n35"}, {-64, "name_36"}, {-63, "n37"}, {-62, "name_38"}, {-61, "n39"}, {-60, "name_40"}, {-59, "n41"}, {-58, "name_42"}, {-57, "n43"}, {-56, "name_44"}, {-55, "n45"}, {-54, "name_46"}, {-53, "n47"}, {-52, "name_48"}, {-51, "n49"}, {-50, "name_50"}, {-49, "n51"}, {-48, "name_52"}, {-47, "n53"}, {-46, "name_54"}, {-45, "n55"}, {-44, "name_56"}, {-43, "n57"}, {-42, "name_58"}, {-41, "n59"}, {-40, "name_60"}, {-39, "n61"}, {-38, "name_62"}, {-37, "n63"}, {-36, "name_64"}, {-35, "n65"}, {-34, "name_66"}, {-33, "n67"}, {-32, "name_68"}, {-31, "n69"}, {-30, "name_70"}, {-29, "n71"}, {-28, "name_72"}, {-27, "n73"}, {-26, "name_74"}, {-25, "n75"}, {-24, "name_76"}, {-23, "n77"}, {-22, "name_78"}, {-21, "n79"}, {-20, "name_80"}, {-19, "n81"}, {-18, "name_82"}, {-17, "n83"}, {-16, "name_84"}, {-15, "n85"}, {-14, "name_86"}, {-13, "n87"}, {-12, "name_88"}, {-11, "n89"}, {-10, "name_90"}, {-9, "n91"}, {-8, "name_92"}, {-7, "n93"}, {-6, "name_94"}, {-5, "n95"}, {-4, "name_96"}, {-3, "n97"}, {-2, "name_98"}, {-1, "n99"}, {0, "name_100"}, {1, "n101"}, {2, "name_102"}, {3, "n103"}, {4, "name_104"}, {5, "n105"}, {6, "name_106"}, {7, "n107"}, {8, "name_108"}, {9, "n109"}, {10, "name_110"}, {11, "n111"}, {12, "name_112"}, {13, "n113"}, {14, "name_114"}, {15, "n115"}, {16, "name_116"}, {17, "n117"}, {18, "name_118"}, {19, "n119"}, {20, "name_120"}, {21, "n121"}, {22, "name_122"}, {23, "n123"}, {24, "name_124"}, {25, "n125"}, {26, "name_126"}, {27, "n127"}, {28, "name_128"}, {29, "n129"}, {30, "name_130"}, {31, "n131"}, {32, "name_132"}, {33, "n133"}, {34, "name_134"}, {35, "n135"}, {36, "name_136"}, {37, "n137"}, {38, "name_138"}, {39, "n139"}, {40, "name_140"}, {41, "n141"}, {42, "name_142"}, {43, "n143"}, {44, "name_144"}, {45, "n145"}, {46, "name_146"}, {47, "n147"}, {48, "name_148"}, {49, "n149"}, {50, "name_150"}, {51, "n151"}, {52, "name_152"}, {53, "n153"}, {54, "name_154"}, {55, "n155"}, {56, "name_156"}, {57, "n157"}, {58, "name_158"}, {59, "n159"}, {60, "name_160"}, {61, "n161"}, {62, "name_162"}, {63, "n163"}, {64, "name_164"}, {65, "n165"}, {66, "name_166"}, {67, "n167"}, {68, "name_168"}, {69, "n169"}, {70, "name_170"}, {71, "n171"}, {72, "name_172"}, {73, "n173"}, {74, "name_174"}, {75, "n175"}, {76, "name_176"}, {77, "n177"}, {78, "name_178"}, {79, "n179"}, {80, "name_180"}, {81, "n181"}, {82, "name_182"}, {83, "n183"}, {84, "name_184"}, {85, "n185"}, {86, "name_186"}, {87, "n187"}, {88, "name_188"}, {89, "n189"}, {90, "name_190"}, {91, "n191"}, {92, "name_192"}, {93, "n193"}, {94, "name_194"}, {95, "n195"}, {96, "name_196"}, {97, "n197"}, {98, "name_198"}, {99, "n199"}}; all<e_n200_up>("unknown n200_up", d); }
static void c_n254_scatter() { static const entry<uint16_t> d[] = {{0, "name_0"}, {7919, "n1"}, {15838, "name_2"}, {23757, "n3"}, {31676, "name_4"}, {39595, "n5"}, {47514, "name_6"}, {55433, "n7"}, {63352, "name_8"}, {5735, "n9"}, {13654, "name_10"}, {21573, "n11"}, {29492, "name_12"}, {37411, "n13"}, {45330, "name_14"}, {53249, "n15"}, {61168, "name_16"}, {3551, "n17"}, {11470, "name_18"}, {19389, "n19"}, {27308, "name_20"}, {35227, "n21"}, {43146, "name_22"}, {51065, "n23"}, {58984, "name_24"}, {1367, "n25"}, {9286, "name_26"}, {17205, "n27"}, {25124, "name_28"}, {33043, "n29"}, {40962, "name_30"}, {48881, "n31"}, {56800, "name_32"}, {64719, "n33"}, {7102, "name_34"}, {15021, "n35"}, {22940, "name_36"}, {30859, "n37"}, {38778, "name_38"}, {46697, "n39"}, {54616, "name_40"}, {62535, "n41"}, {4918, "name_42"}, {12837, "n43"}, {20756, "name_44"}, {28675, "n45"}, {36594, "name_46"}, {44513, "n47"}, {52432, "name_48"}, {60351, "n49"}, {2734, "name_50"}, {10653, "n51"}, {18572, "name_52"}, {26491, "n53"}, {34410, "name_54"}, {42329, "n55"}, {50248, "name_56"}, {58167, "n57"}, {550, "name_58"}, {8469, "n59"}, {16388, "name_60"}, {24307, "n61"}, {32226, "name_62"}, {40145, "n63"}, {48064, "name_64"}, {55983, "n65"}, {63902, "name_66"}, {6285, "n67"}, {14204, "name_68"}, {22123, "n69"}, {30042, "name_70"}, {37961, "n71"}, {45880, "name_72"}, {53799, "n73"}, {61718, "name_74"}, {4101, "n75"}, {12020, "name_76"}, {19939, "n77"}, {27858, "name_78"}, {35777, "n79"}, {43696, "name_80"}, {51615, "n81"}, {59534, "name_82"}, {1917, "n83"}, {9836, "name_84"}, {17755, "n85"}, {25674, "name_86"}, {33593, "n87"}, {41512, "name_88"}, {49431, "n89"}, {57350, "name_90"}, {65269, "n91"}, {7652, "name_92"}, {15571, "n93"}, {23490, "name_94"}, {31409, "n95"}, {39328, "name_96"}, {47247, "n97"}, {55166, "name_98"}, {63085, "n99"}, {5468, "name_100"}, {13387, "n101"}, {21306, "name_102"}, {29225, "n103"}, {37144, "name_104"}, {45063, "n105"}, {52982, "name_106"}, {60901, "n107"}, {3284, "name_108"}, {11203, "n109"}, {19122, "name_110"}, {27041, "n111"}, {34960, "name_112"}, {42879, "n113"}, {50798, "name_114"}, {58717, "n115"}, {1100, "name_116"}, {9019, "n117"}, {16938, "name_118"}, {24857, "n119"}, {32776, "name_120"}, {40695, "n121"}, {48614, "name_122"}, {56533, "n123"}, {64452, "name_124"}, {6835, "n125"}, {14754, "name_126"}, {22673, "n127"}, {30592, "name_128"}, {38511, "n129"}, {46430, "name_130"}, {54349, "n131"}, {62268, "name_132"}, {4651, "n133"}, {12570, "name_134"}, {20489, "n135"}, {28408, "name_136"}, {36327, "n137"}, {44246, "name_138"}, {52165, "n139"}, {60084, "name_140"}, {2467, "n141"}, {10386, "name_142"}, {18305, "n143"}, {26224, "name_144"}, {34143, "n145"}, {42062, "name_146"}, {49981, "n147"}, {57900, "name_148"}, {283, "n149"}, {8202, "name_150"}, {16121, "n151"}, {24040, "name_152"}, {31959, "n153"}, {39878, "name_154"}, {47797, "n155"}, {55716, "name_156"}, {63635, "n157"}, {6018, "name_158"}, {13937, "n159"}, {21856, "name_160"}, {29775, "n161"}, {37694, "name_162"}, {45613, "n163"}, {53532, "name_164"}, {61451, "n165"}, {3834, "name_166"}, {11753, "n167"}, {19672, "name_168"}, {27591, "n169"}, {35510, "name_170"}, {43429, "n171"}, {51348, "name_172"}, {59267, "n173"}, {1650, "name_174"}, {9569, "n175"}, {17488, "name_176"}, {25407, "n177"}, {33326, "name_178"}, {41245, "n179"}, {49164, "name_180"}, {57083, "n181"}, {65002, "name_182"}, {7385, "n183"}, {15304, "name_184"}, {23223, "n185"}, {31142, "name_186"}, {39061, "n187"}, {46980, "name_188"}, {54899, "n189"}, {62818, "name_190"}, {5201, "n191"}, {13120, "name_192"}, {21039, "n193"}, {28958, "name_194"}, {36877, "n195"}, {44796, "name_196"}, {52715, "n197"}, {60634, "name_198"}, {3017, "n199"}, {10936, "name_200"}, {18855, "n201"}, {26774, "name_202"}, {34693, "n203"}, {42612, "name_204"}, {50531, "n205"}, {58450, "name_206"}, {833, "n207"}, {8752, "name_208"}, {16671, "n209"}, {24590, "name_210"}, {32509, "n211"}, {40428, "name_212"}, {48347, "n213"}, {56266, "name_214"}, {64185, "n215"}, {6568, "name_216"}, {14487, "n217"}, {22406, "name_218"}, {30325, "n219"}, {38244, "name_220"}, {46163, "n221"}, {54082, "name_222"}, {62001, "n223"}, {4384, "name_224"}, {12303, "n225"}, {20222, "name_226"}, {28141, "n227"}, {36060, "name_228"}, {43979, "n229"}, {51898, "name_230"}, {59817, "n231"}, {2200, "name_232"}, {10119, "n233"}, {18038, "name_234"}, {25957, "n235"}, {33876, "name_236"}, {41795, "n237"}, {49714, "name_238"}, {57633, "n239"}, {16, "name_240"}, {7935, "n241"}, {15854, "name_242"}, {23773, "n243"}, {31692, "name_244"}, {39611, "n245"}, {47530, "name_246"}, {55449, "n247"}, {63368, "name_248"}, {5751, "n249"}, {13670, "name_250"}, {21589, "n251"}, {29508, "name_252"}, {37427, "n253"}}; all<e_n254_scatter>("unknown n254_scatter", d); }
static void c_n255_byte() { static const entry<uint8_t> d[] = {{5, "name_0"}, {172, "n1"}, {83, "name_2"}, {250, "n3"}, {161, "name_4"}, {72, "n5"}, {239, "name_6"}, {150, "n7"}, {61, "name_8"}, {228, "n9"}, {139, "name_10"}, {50, "n11"}, {217, "name_12"}, {128, "n13"}, {39, "name_14"}, {206, "n15"}, {117, "name_16"}, {28, "n17"}, {195, "name_18"}, {106, "n19"}, {17, "name_20"}, {184, "n21"}, {95, "name_22"}, {6, "n23"}, {173, "name_24"}, {84, "n25"}, {251, "name_26"}, {162, "n27"}, {73, "name_28"}, {240, "n29"}, {151, "name_30"}, {62, "n31"}, {229, "name_32"}, {140, "n33"}, {51, "name_34"}, {218, "n35"}, {129, "name_36"}, {40, "n37"}, {207, "name_38"}, {118, "n39"}, {29, "name_40"}, {196, "n41"}, {107, "name_42"}, {18, "n43"}, {185, "name_44"}, {96, "n45"}, {7, "name_46"}, {174, "n47"}, {85, "name_48"}, {252, "n49"}, {163, "name_50"}, {74, "n51"}, {241, "name_52"}, {152, "n53"}, {63, "name_54"}, {230, "n55"}, {141, "name_56"}, {52, "n57"}, {219, "name_58"}, {130, "n59"}, {41, "name_60"}, {208, "n61"}, {119, "name_62"}, {30, "n63"}, {197, "name_64"}, {108, "n65"}, {19, "name_66"}, {186, "n67"}, {97, "name_68"}, {8, "n69"}, {175, "name_70"}, {86, "n71"}, {253, "name_72"}, {164, "n73"}, {75, "name_74"}, {242, "n75"}, {153, "name_76"}, {64, "n77"}, {231, "name_78"}, {142, "n79"}, {53, "name_80"}, {220, "n81"}, {131, "name_82"}, {42, "n83"}, {209, "name_84"}, {120, "n85"}, {31, "name_86"}, {198, "n87"}, {109, "name_88"}, {20, "n89"}, {187, "name_90"}, {98, "n91"}, {9, "name_92"}, {176, "n93"}, {87, "name_94"}, {254, "n95"}, {165, "name_96"}, {76, "n97"}, {243, "name_98"}, {154, "n99"}, {65, "name_100"}, {232, "n101"}, {143, "name_102"}, {54, "n103"}, {221, "name_104"}, {132, "n105"}, {43, "name_106"}, {210, "n107"}, {121, "name_108"}, {32, "n109"}, {199, "name_110"}, {110, "n111"}, {21, "name_112"}, {188, "n113"}, {99, "name_114"}, {10, "n115"}, {177, "name_116"}, {88, "n117"}, {255, "name_118"}, {166, "n119"}, {77, "name_120"}, {244, "n121"}, {155, "name_122"}, {66, "n123"}, {233, "name_124"}, {144, "n125"}, {55, "name_126"}, {222, "n127"}, {133, "name_128"}, {44, "n129"}, {211, "name_130"}, {122, "n131"}, {33, "name_132"}, {200, "n133"}, {111, "name_134"}, {22, "n135"}, {189, "name_136"}, {100, "n137"}, {11, "name_138"}, {178, "n139"}, {89, "name_140"}, {0, "n141"}, {167, "name_142"}, {78, "n143"}, {245, "name_144"}, {156, "n145"}, {67, "name_146"}, {234, "n147"}, {145, "name_148"}, {56, "n149"}, {223, "name_150"}, {134, "n151"}, {45, "name_152"}, {212, "n153"}, {123, "name_154"}, {34, "n155"}, {201, "name_156"}, {112, "n157"}, {23, "name_158"}, {190, "n159"}, {101, "name_160"}, {12, "n161"}, {179, "name_162"}, {90, "n163"}, {1, "name_164"}, {168, "n165"}, {79, "name_166"}, {246, "n167"}, {157, "name_168"}, {68, "n169"}, {235, "name_170"}, {146, "n171"}, {57, "name_172"}, {224, "n173"}, {135, "name_174"}, {46, "n175"}, {213, "name_176"}, {124, "n177"}, {35, "name_178"}, {202, "n179"}, {113, "name_180"}, {24, "n181"}, {191, "name_182"}, {102, "n183"}, {13, "name_184"}, {180, "n185"}, {91, "name_186"}, {2, "n187"}, {169, "name_188"}, {80, "n189"}, {247, "name_190"}, {158, "n191"}, {69, "name_192"}, {236, "n193"}, {147, "name_194"}, {58, "n195"}, {225, "name_196"}, {136, "n197"}, {47, "name_198"}, {214, "n199"}, {125, "name_200"}, {36, "n201"}, {203, "name_202"}, {114, "n203"}, {25, "name_204"}, {192, "n205"}, {103, "name_206"}, {14, "n207"}, {181, "name_208"}, {92, "n209"}, {3, "name_210"}, {170, "n211"}, {81, "name_212"}, {248, "n213"}, {159, "name_214"}, {70, "n215"}, {237, "name_216"}, {148, "n217"}, {59, "name_218"}, {226, "n219"}, {137, "name_220"}, {48, "n221"}, {215, "name_222"}, {126, "n223"}, {37, "name_224"}, {204, "n225"}, {115, "name_226"}, {26, "n227"}, {193, "name_228"}, {104, "n229"}, {15, "name_230"}, {182, "n231"}, {93, "name_232"}, {4, "n233"}, {171, "name_234"}, {82, "n235"}, {249, "name_236"}, {160, "n237"}, {71, "name_238"}, {238, "n239"}, {149, "name_240"}, {60, "n241"}, {227, "name_242"}, {138, "n243"}, {49, "name_244"}, {216, "n245"}, {127, "name_246"}, {38, "n247"}, {205, "name_248"}, {116, "n249"}, {27, "name_250"}, {194, "n251"}, {105, "name_252"}, {16, "n253"}, {183, "name_254"}}; all<e_n255_byte>("unknown n255_byte", d); }
extern "C" void en_small() { switch (sym_choose(21, "enum")) { case 0: return c_one(); case 1: return c_one_high(); case 2: return c_two(); case 3: return c_three(); case 4: return c_wide(); case 5: return c_uwide(); case 6: return c_sint(); case 7: return c_uint(); case 8: return c_shrt(); case 9: return c_ushrt(); case 10: return c_chr(); case 11: return c_n4_down(); case 12: return c_n7_up(); case 13: return c_n8_scatter(); case 14: return c_n9_byte(); case 15: return c_n15_down(); case 16: return c_n16_up(); case 17: return c_n17_scatter(); case 18: return c_n31_byte(); case 19: return c_n32_down(); case 20: return c_n33_up(); } }
extern "C" void en_big() { switch (sym_choose(10, "enum")) { case 0: return c_n63_scatter(); case 1: return c_n64_byte(); case 2: return c_n65_down(); case 3: return c_n100_up(); case 4: return c_n127_scatter(); case 5: return c_n128_byte(); case 6: return c_n129_down(); case 7: return c_n200_up(); case 8: return c_n254_scatter(); case 9: return c_n255_byte(); } }
