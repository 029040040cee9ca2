// Largest rms error of noise-like data relative to the noise, per normalization,
// distribution, situation (equal noise, antenna gains, channel gains) and bit
// rate. Measured (see DESIGN.md), with a margin. Row normalization promises
// nothing when channels have different gains.
#ifndef VT_ACC_TABLE_H
#define VT_ACC_TABLE_H
static const double kAccTable[3][4][3][8] = {
    {
     {{1.43, 0.432, 0.185, 0.0544, 0.0262, 0.0176, 0.0131, 0.00969},
      {1.55, 0.471, 0.193, 0.0537, 0.0242, 0.018, 0.0128, 0.00881},
      {1.44, 0.436, 0.185, 0.0539, 0.0255, 0.0172, 0.0144, 0.0101}},
     {{1.44, 0.501, 0.215, 0.0483, 0.0118, 0.00292, 0.000731, 4.59e-05},
      {1.55, 0.56, 0.235, 0.054, 0.0131, 0.0033, 0.000802, 5.09e-05},
      {1.45, 0.502, 0.214, 0.0483, 0.0118, 0.00293, 0.000735, 4.54e-05}},
     {{1.44, 0.433, 0.204, 0.0923, 0.0658, 0.0585, 0.0538, 0.0506},
      {1.55, 0.459, 0.206, 0.0885, 0.0637, 0.0563, 0.0528, 0.0483},
      {1.44, 0.436, 0.206, 0.0926, 0.0688, 0.0597, 0.0549, 0.0517}},
     {{1.45, 0.436, 0.182, 0.0471, 0.0134, 0.00361, 0.000915, 5.78e-05},
      {1.56, 0.469, 0.192, 0.0469, 0.0131, 0.00361, 0.000885, 5.56e-05},
      {1.46, 0.435, 0.183, 0.0467, 0.0134, 0.00366, 0.00092, 5.81e-05}}},
    {
     {{1.28, 0.396, 0.173, 0.0558, 0.0277, 0.0181, 0.0136, 0.00906},
      {1.28, 0.394, 0.173, 0.0557, 0.028, 0.0179, 0.0137, 0.00895},
      {2.06, 0.712, 0.269, 0.0573, 0.022, 0.0151, 0.0115, 0.00761}},
     {{1.28, 0.439, 0.188, 0.0421, 0.0102, 0.00257, 0.000636, 3.98e-05},
      {1.28, 0.437, 0.187, 0.0426, 0.0103, 0.00256, 0.00064, 3.96e-05},
      {2.07, 0.894, 0.429, 0.092, 0.0227, 0.00553, 0.00148, 8.83e-05}},
     {{1.28, 0.401, 0.198, 0.0969, 0.0728, 0.0619, 0.0567, 0.0528},
      {1.29, 0.399, 0.2, 0.0957, 0.0711, 0.0609, 0.0568, 0.0531},
      {2.04, 0.645, 0.246, 0.0752, 0.054, 0.0465, 0.0442, 0.0407}},
     {{1.29, 0.394, 0.172, 0.0464, 0.0137, 0.00375, 0.000976, 6.1e-05},
      {1.28, 0.392, 0.171, 0.0463, 0.0138, 0.00373, 0.000961, 5.99e-05},
      {2.04, 0.705, 0.278, 0.0561, 0.014, 0.00355, 0.000898, 5.6e-05}}},
    {
     {{1.4, 0.423, 0.182, 0.0551, 0.0261, 0.0181, 0.0136, 0.00922},
      {1.39, 0.426, 0.182, 0.055, 0.0266, 0.018, 0.0133, 0.00921},
      {1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09}},
     {{1.39, 0.486, 0.206, 0.0466, 0.0114, 0.0028, 0.000705, 4.41e-05},
      {1.4, 0.484, 0.206, 0.0466, 0.0114, 0.00283, 0.000707, 4.39e-05},
      {1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09}},
     {{1.42, 0.425, 0.203, 0.0929, 0.0684, 0.0588, 0.0537, 0.0501},
      {1.4, 0.424, 0.205, 0.0939, 0.067, 0.0577, 0.0535, 0.0512},
      {1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09}},
     {{1.4, 0.424, 0.18, 0.0472, 0.0134, 0.00363, 0.00091, 5.97e-05},
      {1.39, 0.424, 0.181, 0.0468, 0.0135, 0.0036, 0.000922, 5.81e-05},
      {1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09, 1e+09}}}};
#endif
