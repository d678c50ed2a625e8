------------------------------- MODULE LogTab -------------------------------
(* Base two logarithms in fixed point: L2[k] = round(100000 * log2 k).       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

L2 == <<0, 100000, 158496, 200000, 232193, 258496, 280735, 300000, 316993, 332193, 345943, 358496,
        370044, 380735, 390689, 400000, 408746, 416993, 424793, 432193, 439232, 445943, 452356, 458496,
        464386, 470044, 475489, 480735, 485798, 490689, 495420, 500000, 504439, 508746, 512928, 516993,
        520945, 524793, 528540, 532193, 535755, 539232, 542626, 545943, 549185, 552356, 555459, 558496,
        561471, 564386, 567243, 570044, 572792, 575489, 578136, 580735, 583289, 585798, 588264, 590689,
        593074, 595420, 597728, 600000, 602237, 604439, 606609, 608746, 610852, 612928, 614975, 616993,
        618982, 620945, 622882, 624793, 626679, 628540, 630378, 632193, 633985, 635755, 637504, 639232,
        640939, 642626, 644294, 645943, 647573, 649185, 650779, 652356, 653916, 655459, 656986, 658496,
        659991, 661471, 662936, 664386, 665821, 667243, 668650, 670044, 671425, 672792, 674147, 675489,
        676818, 678136, 679442, 680735, 682018, 683289, 684549, 685798, 687036, 688264, 689482, 690689,
        691886, 693074, 694251, 695420, 696578, 697728, 698868, 700000, 701123, 702237, 703342, 704439,
        705528, 706609, 707682, 708746, 709803, 710852, 711894, 712928, 713955, 714975, 715987, 716993,
        717991, 718982, 719967, 720945, 721917, 722882, 723840, 724793, 725739, 726679, 727612, 728540,
        729462, 730378, 731288, 732193, 733092, 733985, 734873, 735755, 736632, 737504, 738370, 739232,
        740088, 740939, 741785, 742626, 743463, 744294, 745121, 745943, 746761, 747573, 748382, 749185,
        749985, 750779, 751570, 752356, 753138, 753916, 754689, 755459, 756224, 756986, 757743, 758496,
        759246, 759991, 760733, 761471, 762205, 762936, 763662, 764386, 765105, 765821, 766534, 767243,
        767948, 768650, 769349, 770044, 770736, 771425, 772110, 772792, 773471, 774147, 774819, 775489,
        776155, 776818, 777479, 778136, 778790, 779442, 780090, 780735, 781378, 782018, 782655, 783289,
        783920, 784549, 785175, 785798, 786419, 787036, 787652, 788264, 788874, 789482, 790087, 790689,
        791289, 791886, 792481, 793074, 793664, 794251, 794837, 795420, 796000, 796578, 797154, 797728,
        798299, 798868, 799435, 800000, 800562, 801123, 801681, 802237, 802791, 803342, 803892, 804439,
        804985, 805528, 806070, 806609, 807146, 807682, 808215, 808746, 809276, 809803, 810329, 810852,
        811374, 811894, 812412, 812928, 813443, 813955, 814466, 814975, 815482, 815987, 816491, 816993,
        817493, 817991, 818488, 818982, 819476, 819967, 820457, 820945, 821432, 821917, 822400, 822882,
        823362, 823840, 824317, 824793, 825267, 825739, 826209, 826679, 827146, 827612, 828077, 828540,
        829002, 829462, 829921, 830378, 830834, 831288, 831741, 832193, 832643, 833092, 833539, 833985,
        834430, 834873, 835315, 835755, 836194, 836632, 837069, 837504, 837938, 838370, 838802, 839232,
        839660, 840088, 840514, 840939, 841363, 841785, 842206, 842626, 843045, 843463, 843879, 844294,
        844708, 845121, 845533, 845943, 846352, 846761, 847168, 847573, 847978, 848382, 848784, 849185,
        849586, 849985, 850383, 850779, 851175, 851570, 851964, 852356, 852748, 853138, 853528, 853916,
        854303, 854689, 855075, 855459, 855842, 856224, 856605, 856986, 857365, 857743, 858120, 858496,
        858871, 859246, 859619, 859991, 860363, 860733, 861102, 861471, 861839, 862205, 862571, 862936,
        863300, 863662, 864024, 864386, 864746, 865105, 865464, 865821, 866178, 866534, 866888, 867243,
        867596, 867948, 868299, 868650, 869000, 869349, 869697, 870044, 870390, 870736, 871081, 871425,
        871768, 872110, 872451, 872792, 873132, 873471, 873809, 874147, 874483, 874819, 875154, 875489,
        875822, 876155, 876487, 876818, 877149, 877479, 877808, 878136, 878463, 878790, 879116, 879442,
        879766, 880090, 880413, 880735, 881057, 881378, 881698, 882018, 882337, 882655, 882972, 883289,
        883605, 883920, 884235, 884549, 884862, 885175, 885487, 885798, 886109, 886419, 886728, 887036,
        887344, 887652, 887958, 888264, 888570, 888874, 889178, 889482, 889785, 890087, 890388, 890689,
        890989, 891289, 891588, 891886, 892184, 892481, 892778, 893074, 893369, 893664, 893958, 894251,
        894544, 894837, 895128, 895420, 895710, 896000, 896290, 896578, 896867, 897154, 897441, 897728,
        898014, 898299, 898584, 898868, 899152, 899435, 899718, 900000, 900282, 900562, 900843, 901123,
        901402, 901681, 901959, 902237, 902514, 902791, 903067, 903342, 903617, 903892, 904166, 904439,
        904712, 904985, 905257, 905528, 905799, 906070, 906340, 906609, 906878, 907146, 907414, 907682,
        907948, 908215, 908481, 908746, 909011, 909276, 909540, 909803, 910066, 910329, 910591, 910852,
        911114, 911374, 911634, 911894, 912153, 912412, 912670, 912928, 913186, 913443, 913699, 913955,
        914211, 914466, 914720, 914975, 915228, 915482, 915735, 915987, 916239, 916491, 916742, 916993,
        917243, 917493, 917742, 917991, 918239, 918488, 918735, 918982, 919229, 919476, 919722, 919967,
        920212, 920457, 920701, 920945, 921189, 921432, 921675, 921917, 922159, 922400, 922641, 922882,
        923122, 923362, 923601, 923840, 924079, 924317, 924555, 924793, 925030, 925267, 925503, 925739,
        925974, 926209, 926444, 926679, 926913, 927146, 927380, 927612, 927845, 928077, 928309, 928540,
        928771, 929002, 929232, 929462, 929692, 929921, 930150, 930378, 930606, 930834, 931061, 931288,
        931515, 931741, 931967, 932193, 932418, 932643, 932867, 933092, 933316, 933539, 933762, 933985,
        934207, 934430, 934651, 934873, 935094, 935315, 935535, 935755, 935975, 936194, 936413, 936632,
        936851, 937069, 937287, 937504, 937721, 937938, 938154, 938370, 938586, 938802, 939017, 939232,
        939446, 939660, 939874, 940088, 940301, 940514, 940727, 940939, 941151, 941363, 941574, 941785,
        941996, 942206, 942417, 942626, 942836, 943045, 943254, 943463, 943671, 943879, 944087, 944294,
        944501, 944708, 944915, 945121, 945327, 945533, 945738, 945943, 946148, 946352, 946557, 946761,
        946964, 947168, 947371, 947573, 947776, 947978, 948180, 948382, 948583, 948784, 948985, 949185,
        949386, 949586, 949785, 949985, 950184, 950383, 950581, 950779, 950978, 951175, 951373, 951570,
        951767, 951964, 952160, 952356, 952552, 952748, 952943, 953138, 953333, 953528, 953722, 953916,
        954110, 954303, 954496, 954689, 954882, 955075, 955267, 955459, 955651, 955842, 956033, 956224,
        956415, 956605, 956796, 956986, 957175, 957365, 957554, 957743, 957932, 958120, 958308, 958496,
        958684, 958871, 959059, 959246, 959432, 959619, 959805, 959991, 960177, 960363, 960548, 960733,
        960918, 961102, 961287, 961471, 961655, 961839, 962022, 962205, 962388, 962571, 962753, 962936,
        963118, 963300, 963481, 963662, 963844, 964024, 964205, 964386, 964566, 964746, 964926, 965105,
        965284, 965464, 965642, 965821, 966000, 966178, 966356, 966534, 966711, 966888, 967066, 967243,
        967419, 967596, 967772, 967948, 968124, 968299, 968475, 968650, 968825, 969000, 969174, 969349,
        969523, 969697, 969870, 970044, 970217, 970390, 970563, 970736, 970908, 971081, 971253, 971425,
        971596, 971768, 971939, 972110, 972281, 972451, 972622, 972792, 972962, 973132, 973302, 973471,
        973640, 973809, 973978, 974147, 974315, 974483, 974651, 974819, 974987, 975154, 975322, 975489,
        975656, 975822, 975989, 976155, 976321, 976487, 976653, 976818, 976984, 977149, 977314, 977479,
        977643, 977808, 977972, 978136, 978300, 978463, 978627, 978790, 978953, 979116, 979279, 979442,
        979604, 979766, 979928, 980090, 980252, 980413, 980574, 980735, 980896, 981057, 981218, 981378,
        981538, 981698, 981858, 982018, 982177, 982337, 982496, 982655, 982814, 982972, 983131, 983289,
        983447, 983605, 983763, 983920, 984078, 984235, 984392, 984549, 984706, 984862, 985019, 985175,
        985331, 985487, 985643, 985798, 985953, 986109, 986264, 986419, 986573, 986728, 986882, 987036,
        987191, 987344, 987498, 987652, 987805, 987958, 988111, 988264, 988417, 988570, 988722, 988874,
        989026, 989178, 989330, 989482, 989633, 989785, 989936, 990087, 990238, 990388, 990539, 990689,
        990839, 990989, 991139, 991289, 991439, 991588, 991737, 991886, 992035, 992184, 992333, 992481,
        992630, 992778, 992926, 993074, 993221, 993369, 993517, 993664, 993811, 993958, 994105, 994251,
        994398, 994544, 994691, 994837, 994983, 995128, 995274, 995420, 995565, 995710, 995855, 996000,
        996145, 996290, 996434, 996578, 996723, 996867, 997011, 997154, 997298, 997441, 997585, 997728,
        997871, 998014, 998157, 998299, 998442, 998584, 998726, 998868, 999010, 999152, 999294, 999435,
        999577, 999718, 999859, 1000000>>
LogMax == Len(L2)
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
(* the table is a logarithm: doubling adds one, products add, it increases   *)
LogTableOK == /\ L2[1] = 0 /\ L2[2] = 100000
              /\ \A a \in 1..LogMax : \A b \in 1..(LogMax \div a) : Abs(L2[a * b] - L2[a] - L2[b]) <= 2
              /\ \A a \in 1..(LogMax - 1) : L2[a] < L2[a + 1]
ASSUME LogTableOK

RECURSIVE KLogK(_, _)
LOCAL Term(k) == IF k <= 0 THEN 0 ELSE k * L2[k]
(* sum of k log2 k over a sequence of naturals *)
KLogK(s, i) == IF i > Len(s) THEN 0 ELSE Term(s[i]) + KLogK(s, i + 1)
(* M times the entropy of the distribution s/M *)
MEntropy(s, M) == M * L2[M] - KLogK(s, 1)

(* larger numbers: interpolated between their leading bits *)
RECURSIVE Log2(_)
Log2(k) == IF k <= LogMax THEN L2[k]
           ELSE IF k < 2 * LogMax THEN (IF k % 2 = 0 THEN 100000 + L2[k \div 2]
                                        ELSE 100000 + (L2[k \div 2] + L2[(k \div 2) + 1]) \div 2)
           ELSE 100000 + Log2(k \div 2) + ((k % 2) * (Log2((k \div 2) + 1) - Log2(k \div 2))) \div 2
(* the entropy of the distribution s/M itself, M up to some 20000 *)
RECURSIVE Entropy(_, _, _)
Entropy(s, M, i) ==
   IF i > Len(s) THEN 0
   ELSE (IF s[i] <= 0 THEN 0 ELSE (s[i] * (Log2(M) - Log2(s[i])) + (M \div 2)) \div M) + Entropy(s, M, i + 1)
ASSUME /\ \A j \in 1..40 : Abs(Log2(1000 + 311 * j) - Log2(2 * (1000 + 311 * j)) + 100000) <= 2
       /\ \A a, b \in {7, 59, 100, 131} : Abs(Log2(a * b) - L2[a] - L2[b]) <= 3
       /\ Abs(Entropy(<<8000, 2>>, 8002, 1) - 335) <= 2
=============================================================================
