// The best known tours of the built-in travelling salesman instances, found by an iterated local search on the rounded distances;
// all but the last (107250) have the published optimal length.
#pragma once
#include <vector>
static const std::vector<int> tour52 = { 4,23,47,37,36,39,38,35,34,33,43,45,15,28,49,19,22,29,1,6,41,20,16,2,17,30,21,0,48,31,44,18,40,7,8,9,42,32,50,10,51,13,12,46,25,26,27,11,24,3,5,14 }; // 7542
static const std::vector<int> tour76 = { 19,25,26,27,42,41,53,52,51,54,55,56,57,58,59,40,60,61,62,63,72,71,70,64,65,50,48,49,66,69,67,68,46,47,43,44,45,23,24,20,21,22,0,75,74,1,2,3,4,5,6,7,8,9,10,11,12,13,73,14,15,16,17,36,35,37,38,39,33,34,32,31,28,29,30,18 }; // 108159
static const std::vector<int> tour124 = { 24,21,22,38,39,20,19,40,41,42,43,53,44,18,17,16,15,8,9,10,11,12,13,14,50,49,48,47,46,45,51,52,87,88,103,104,105,106,107,108,109,110,111,112,113,102,101,89,86,85,84,90,100,114,115,116,117,118,119,120,121,122,123,99,98,97,96,95,94,93,92,91,79,78,77,76,75,74,73,72,71,70,69,68,67,63,62,80,81,83,82,66,64,65,61,32,33,29,30,31,5,4,3,2,1,0,7,6,26,27,28,34,35,58,60,59,57,56,55,54,36,37,25,23 }; // 59030
static const std::vector<int> tour152 = { 8,7,9,18,20,19,6,10,21,22,38,5,11,23,24,25,4,12,26,27,37,3,13,28,29,30,2,14,31,32,36,1,15,0,34,35,33,46,50,72,74,47,48,49,75,73,76,92,93,94,91,77,90,95,114,115,123,124,125,151,149,150,126,127,122,121,128,129,148,147,146,130,131,120,119,132,133,145,144,143,134,135,118,117,136,137,142,141,140,138,139,116,109,108,107,84,83,85,106,105,104,82,86,103,110,111,81,87,102,101,100,80,88,99,112,113,79,89,98,97,96,78,70,71,52,51,45,69,68,53,44,43,54,55,67,66,65,64,56,42,41,57,58,63,62,61,60,59,40,39,17,16 }; // 73682
static const std::vector<int> tour226 = { 41,37,38,39,40,86,94,95,88,87,96,97,89,90,98,99,91,92,100,101,93,143,136,137,145,144,138,139,140,141,142,149,147,148,146,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,124,131,129,123,122,121,120,119,118,125,127,126,128,130,132,133,134,135,109,117,116,108,107,115,114,106,105,113,112,103,104,102,111,110,85,84,83,82,81,80,79,78,77,76,75,74,73,72,0,1,2,3,4,5,6,7,71,70,12,11,10,8,9,13,14,15,16,66,67,68,69,65,64,17,18,19,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,20,21,22,23,24,25,26,27,48,47,32,31,30,28,29,33,34,35,36,43,44,45,46,42 }; // 80369
static const std::vector<int> tour299 = { 79,74,76,77,75,101,100,99,98,83,82,97,94,95,96,93,86,84,85,90,88,89,87,13,12,11,10,9,8,7,6,4,5,1,2,3,0,91,92,143,145,144,147,146,148,149,150,151,152,153,154,155,213,214,297,295,296,293,294,292,291,289,290,288,287,286,216,215,217,211,212,158,157,156,142,141,140,138,139,160,159,210,209,207,206,203,204,205,298,226,224,225,222,223,219,208,221,220,218,285,284,283,279,282,281,280,277,278,274,275,276,231,232,229,230,228,202,227,199,198,201,163,162,161,137,135,134,136,133,132,102,131,128,103,129,130,164,165,200,167,166,196,197,233,234,273,272,271,237,235,236,240,239,238,270,268,269,242,241,195,192,191,190,193,194,169,168,173,171,127,108,107,105,109,60,58,59,38,56,57,111,110,112,122,126,125,123,124,174,176,175,177,186,188,178,170,172,189,187,249,250,244,246,245,243,248,247,267,266,264,265,262,263,261,258,257,256,253,259,260,254,251,252,185,255,184,183,182,181,180,179,119,121,120,117,118,116,114,113,115,54,55,53,52,51,50,49,48,47,46,43,45,44,40,42,39,41,36,37,35,34,31,30,29,33,32,65,62,61,106,64,63,104,67,66,69,68,70,73,72,71,28,27,26,25,24,23,22,20,17,16,14,15,18,19,21,78,80,81 }; // 48191
static const std::vector<int> tour439 = { 385,384,377,368,367,366,365,364,363,362,361,360,369,359,338,337,336,335,334,333,332,299,298,297,296,295,294,293,278,277,276,275,274,273,272,300,271,270,269,268,267,266,265,264,263,262,261,260,259,258,257,256,255,313,312,311,310,309,308,307,306,305,304,303,301,302,329,331,330,328,327,326,325,324,323,322,321,320,319,318,317,316,314,315,253,254,251,252,250,208,207,206,205,204,202,201,200,199,198,197,196,195,194,193,192,191,182,181,180,179,178,177,176,175,174,203,173,172,171,170,169,167,168,165,163,164,166,132,131,130,129,127,128,126,125,123,122,124,98,97,96,95,94,99,93,92,91,101,102,114,116,119,100,121,120,118,117,115,113,112,142,151,141,140,139,138,137,136,135,134,133,162,161,160,159,158,157,156,155,154,153,152,150,149,183,190,221,220,219,218,217,216,215,214,213,212,211,210,209,249,248,247,246,245,244,243,242,241,240,239,238,237,236,235,234,233,232,222,223,189,184,144,147,146,143,145,111,110,109,108,107,106,105,104,103,90,89,88,87,71,70,69,68,67,17,18,19,66,65,64,23,21,20,22,24,63,73,72,62,28,26,25,27,29,30,31,61,74,75,60,59,58,76,86,85,77,57,56,78,79,80,81,55,54,53,52,50,49,47,46,48,45,44,43,41,42,40,39,38,37,36,35,34,33,32,16,15,14,13,12,11,10,9,8,7,6,5,4,3,0,2,1,51,82,83,84,148,185,225,226,227,282,228,281,280,229,186,187,188,224,230,231,279,284,285,286,339,287,288,289,290,291,292,358,356,357,355,354,353,351,352,350,349,348,346,347,345,344,375,376,378,388,389,379,373,374,380,390,391,398,397,395,396,392,394,393,383,381,382,371,370,372,340,341,342,343,283,438,434,435,436,437,433,402,407,408,410,409,424,425,423,426,429,432,431,421,422,411,412,406,405,413,420,419,418,414,415,430,428,427,417,416,404,403,401,399,400,387,386 }; // 107250
