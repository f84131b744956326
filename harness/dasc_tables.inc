// sampling pairs of the descriptor (published, pre-trained), copied from modules/features2d/src/DASC.cpp
static const int anRP1[256] = {5,-9,-14,-5,10,0,-12,4,-4,-6,-13,-7,-6,-11,5,14,3,9,10,11,10,-2,15,3,6,5,14,5,14,-5,-9,-5,
        8,10,-8,-10,-3,-15,-11,6,12,4,9,3,-7,13,3,-15,-15,3,13,0,4,-12,-6,-11,12,-2,-4,-12,-5,14,-3,-15,
        10,-11,11,10,-10,0,-11,-10,-9,5,8,6,-12,-4,13,7,15,0,-15,3,5,14,-11,10,5,-6,-13,-7,3,-15,-9,-5,
        -6,-8,0,13,-7,13,-9,3,0,15,11,-6,10,11,5,14,-11,10,14,-5,8,10,0,15,-5,14,11,6,8,-6,-7,13,
        -13,0,-11,-6,-8,-13,2,12,-7,13,4,6,-10,-11,-6,-11,-10,-11,5,-9,-14,-5,-3,-15,-4,12,10,-2,13,7,-15,0,
        10,2,5,14,-5,-14,-13,0,5,-14,0,5,10,8,-12,4,-12,4,-10,8,-15,-3,14,5,-10,-8,15,0,-2,-10,-7,1,
        0,15,14,-5,3,-9,-13,0,0,15,2,12,-10,8,13,7,-5,-6,5,14,15,3,-8,-13,-9,3,-5,9,5,-9,-0,-13,
        6,-11,15,3,-0,-15,13,7,6,11,-2,10,-15,-3,6,-8,11,-6,-14,5,-5,-6,3,-7,-15,0,6,-8,14,5,0,13,};
static const int anRP2[256] = {-0,-13,1,7,12,2,-10,-11,-3,-9,0,15,-11,10,-15,-3,-2,-12,-15,3,5,14,-12,2,15,0,-11,-6,-8,-6,-2,10,
        -0,-8,-8,6,-4,-12,-9,-5,10,-8,5,-6,11,10,-13,0,12,2,-8,-13,-11,10,10,8,-10,11,-0,-8,4,12,11,10,
        11,-10,6,-11,-3,9,-11,6,-14,5,8,13,-0,-15,4,12,14,5,5,14,-10,-2,13,0,-15,-3,-3,15,7,-3,-14,5,
        13,7,4,-6,13,-8,-15,3,0,15,-14,-5,-14,-5,14,-5,5,-9,11,-6,-3,15,-10,-8,-3,15,14,5,10,-2,5,14,
        -3,-15,6,4,0,15,-5,14,11,6,-3,-7,-5,14,12,-4,8,-13,9,-3,7,1,-14,-5,-8,-10,8,10,0,15,-5,-14,
        -0,-15,-8,6,-7,-3,8,6,-0,-10,-7,-3,-11,-10,8,10,10,11,-15,0,-11,6,-2,10,-12,2,15,0,-10,8,10,-11,
        3,-7,-6,-8,9,3,5,-2,8,10,10,-2,14,-5,-10,-11,-13,-7,0,15,-6,11,-10,8,5,9,-3,15,-8,-6,-5,-14,
        3,15,12,-2,-4,-12,3,-4,8,-13,-0,-13,-0,-10,10,11,-5,-6,-13,7,-8,-10,-11,-10,5,14,8,-13,8,10,-15,-3,};
