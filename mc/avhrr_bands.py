# Central wave numbers, offsets and slopes of the bands at 3.7, 11 and 12 um (-1: no such band), per instrument
BANDS = {
    "m02": [2685.11, 926.605, 837.805, 1.99126, 0.448099, 0.382986, 0.996287, 0.998631, 0.998879],
    "n19": [2678.51, 928.179, 832.01, 1.90192, 0.406106, 0.391425, 0.999063, 0.998698, 0.998849],
    "n18": [2675.31, 928.68, 834.073, 2.10086, 0.348003, 0.408531, 1.00006, 0.998861, 0.998805],
    "n17": [2678.19, 927.486, 840.187, 1.93286, 0.431676, 0.370802, 0.999144, 0.998637, 0.998917],
    "n16": [2688.43, 919.6, 836.71, 1.85548, 0.693914, 0.440396, 0.995179, 0.99817, 0.998707],
    "n15": [2687.15, 926.258, 840.231, 1.40674, 0.451169, 0.365465, 0.996299, 0.998636, 0.998931],
    "n14": [2674.39, 930.521, 835.544, 2.39486, 0.62159, 0.419563, 1.00004, 0.998294, 0.998769],
    "n12": [2671.81, 921.925, 838.003, 2.42853, 0.560212, 0.398581, 1.00102, 0.998415, 0.998832],
    "n11": [2682.85, 928.047, 842.869, 1.68218, 0.393074, 0.406868, 0.99763, 0.998759, 0.998803],
    "n10": [2679.11, 910.515, -1.0, 1.93677, 0.457244, -1.0, 0.998787, 0.998768, -1.0],
    "n09": [2685.84, 929.574, 846.292, 1.74231, 0.347473, 0.493176, 0.996351, 0.998839, 0.998698],
    "n08": [2671.12, 915.281, -1.0, 2.3164, 0.497544, -1.0, 1.00146, 0.998654, -1.0],
    "n07": [2683.18, 927.508, 841.403, 1.7329, 0.405709, 0.392737, 0.997424, 0.998741, 0.998845],
    "n06": [2678.59, 913.461, -1.0, 1.94528, 0.505261, -1.0, 0.998976, 0.998636, -1.0],
    "tn": [2672.5, 913.041, -1.0, 2.11244, 0.531096, -1.0, 1.00119, 0.998563, -1.0],
    "aatsr": [2681.59, 923.695, 832.715, 1.77887, 0.454752, 0.498667, 0.998005, 0.998814, 0.998525],
    "atsr1": [2686.35, 918.255, 841.035, 2.13333, 0.532039, 0.432575, 0.99562, 0.998695, 0.998729],
    "atsr2": [2699.0, 917.236, 831.569, 2.04002, 0.597643, 0.467731, 0.99074, 0.998578, 0.99862],
}
