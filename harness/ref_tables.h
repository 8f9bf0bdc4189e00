// Reference tables: the codes and names of the file formats, fixed when the check was written.
struct RefEntry { int code; const char *name; };
static const RefEntry refBaseSignal[] = {{0, "Sine"}, {1, "Square"}, {2, "Triangle"}, {3, "SawToothUp"}, {4, "SawToothDown"}};
static const RefEntry refEffectType[] = {{0, "Basis"}, {1, "Reference"}, {2, "Composite"}};
static const RefEntry refActuatorType[] = {{0, "Unknown"}, {1, "LRA"}, {2, "VCA"}, {3, "ERM"}, {4, "Piezo"}};
static const RefEntry refPerceptionModality[] = {{0, "Other"}, {1, "Pressure"}, {2, "Acceleration"}, {3, "Velocity"}, {4, "Position"}, {5, "Temperature"}, {6, "Vibrotactile"}, {7, "Water"}, {8, "Wind"}, {9, "Force"}, {10, "Vibrotactile Texture"}, {11, "Stiffness"}, {12, "Friction"}, {13, "Electrotactile"}};
static const RefEntry refAvatarType[] = {{1, "Vibration"}, {2, "Pressure"}, {3, "Temperature"}, {0, "Custom"}};
static const RefEntry refEffectSemantic[] = {{0, "UX/Undefined"}, {1, "UX/Click"}, {2, "UX/DoubleClick"}, {3, "UX/Success"}, {4, "UX/Error"}, {5, "UX/Alarm"}, {6, "UX/Confirmatioon"}, {7, "UX/Wrong"}, {8, "UX/Ring"}, {9, "UX/Message"}, {256, "Avatar/Undefined"}, {257, "Avatar/Jumping"}, {258, "Avatar/Fall"}, {259, "Avatar/Crawl"}, {260, "Avatar/Swim"}, {261, "Avatar/Collision"}, {262, "Avatar/Grab"}, {263, "Avatar/Touch"}, {264, "Avatar/Swip"}, {265, "Avatar/Footstep"}, {512, "SpecialFX/Undefined"}, {513, "SpecialFX/Washout"}, {514, "SpecialFX/Noise"}, {768, "WeaponCombat/Undefined"}, {769, "WeaponCombat/Blade"}, {770, "WeaponCombat/Hit"}, {771, "WeaponCombat/HandThrown"}, {772, "WeaponCombat/ElasticPropulsion"}, {773, "WeaponCombat/Pneumatic"}, {774, "WeaponCombat/Handgun"}, {775, "WeaponCombat/Rifle"}, {776, "WeaponCombat/Shotgun"}, {777, "WeaponCombat/Gun"}, {778, "WeaponCombat/Machinegun"}, {779, "WeaponCombat/Taser"}, {780, "WeaponCombat/ElectricShock"}, {781, "WeaponCombat/Mine"}, {782, "WeaponCombat/Missile"}, {783, "WeaponCombat/Grenade"}, {784, "WeaponCombat/Blast"}, {1024, "Ambient/Undefined"}, {1025, "Ambient/Wind"}, {1026, "Ambient/Heat"}, {1027, "Ambient/Cold"}, {1028, "Ambient/Rain"}, {1029, "Ambient/Waterfall"}, {1030, "Ambient/WaterDrop"}, {1031, "Ambient/ElectricBuzz"}, {1032, "Ambient/Ignition"}, {1033, "Ambient/Cracks"}, {1034, "Ambient/Earthquack"}, {1035, "Ambient/Sparks"}, {1036, "Ambient/Thunderbolt"}, {1280, "Texture/Undefined"}, {1281, "Texture/Rock"}, {1282, "Texture/Gravel"}, {1283, "Texture/Sand"}, {1284, "Texture/Wood"}, {1285, "Texture/Metal"}, {1286, "Texture/Plastic"}, {1536, "Vehicle/Undefined"}, {1537, "Vehicle/Engine"}, {1538, "Vehicle/Doors"}, {1539, "Vehicle/Brake"}, {1540, "Vehicle/MechanicalContraption"}, {1541, "Vehicle/Drift"}, {1542, "Vehicle/RoadFriction"}, {1543, "Vehicle/RoadBump"}, {1544, "Vehicle/Tires"}, {1545, "Vehicle/AirFriction"}, {1792, "Music/Undefined"}, {1793, "Music/HardMaterial"}, {1794, "Music/BouncyMaterial"}, {1795, "Music/Pucking"}, {1796, "Music/Bowing"}, {1797, "Music/Striking"}, {1798, "Music/BrassInstrument"}, {1799, "Music/WoodWindInstrument"}};
static const RefEntry refBodyPartTarget[] = {{0, "Unknown"}, {1, "All"}, {10, "Top"}, {11, "Down"}, {12, "Right"}, {13, "Left"}, {14, "Front"}, {15, "Back"}, {20, "Arm"}, {21, "Head"}, {22, "Chest"}, {23, "Waist"}, {24, "Leg"}, {30, "Upper-arm"}, {31, "Forearm"}, {32, "Hand"}, {33, "Crane"}, {34, "Neck"}, {35, "Thigh"}, {36, "Calf"}, {37, "Foot"}, {40, "Palm"}, {41, "Finger"}, {42, "Sole"}, {43, "Toe"}, {50, "Thumb"}, {51, "Index"}, {52, "Middle"}, {53, "Ring"}, {54, "Pinky"}, {55, "Hallux"}, {56, "Index-toe"}, {57, "Middle-toe"}, {58, "Ring-toe"}, {59, "Pinky-toe"}, {60, "First Phalanx"}, {61, "Second Phalanx"}, {62, "Third Phalanx"}, {254, "Minus"}, {255, "Plus"}};
static const RefEntry refBandType[] = {{3, "WaveletWave"}, {2, "VectorialWave"}, {1, "Curve"}, {0, "Transient"}};
static const RefEntry refCurveType[] = {{0, "Unknown"}, {1, "Cubic"}, {2, "Linear"}, {3, "Akima"}, {4, "Bezier"}, {5, "Bspline"}};
