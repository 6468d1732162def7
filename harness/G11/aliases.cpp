#include "named.h"
namespace g11 { namespace {
struct R { R() {
mc::add("aliases", [] {
switch(mc::choose(157)) {
case 0: vector_alias<vector2i, int>("vector2i", 2, false); break;
case 1: vector_alias<external2i, int>("external2i", 2, true); break;
case 2: vector_alias<external2ci, const int>("external2ci", 2, true); break;
case 3: vector_alias<vector3i, int>("vector3i", 3, false); break;
case 4: vector_alias<external3i, int>("external3i", 3, true); break;
case 5: vector_alias<external3ci, const int>("external3ci", 3, true); break;
case 6: vector_alias<vector4i, int>("vector4i", 4, false); break;
case 7: vector_alias<external4i, int>("external4i", 4, true); break;
case 8: vector_alias<external4ci, const int>("external4ci", 4, true); break;
case 9: vector_alias<vectori, int>("vectori", -1, false); break;
case 10: vector_alias<externalni, int>("externalni", -1, true); break;
case 11: vector_alias<externalnci, const int>("externalnci", -1, true); break;
case 12: matrix_alias<matrix22i, int>("matrix22i", 2, 2, false, false, false); break;
case 13: matrix_alias<external22i, int>("external22i", 2, 2, true, false, false); break;
case 14: matrix_alias<matrix33i, int>("matrix33i", 3, 3, false, false, false); break;
case 15: matrix_alias<external33i, int>("external33i", 3, 3, true, false, false); break;
case 16: matrix_alias<matrix44i, int>("matrix44i", 4, 4, false, false, false); break;
case 17: matrix_alias<external44i, int>("external44i", 4, 4, true, false, false); break;
case 18: matrix_alias<matrix23i, int>("matrix23i", 2, 3, false, false, false); break;
case 19: matrix_alias<external23i, int>("external23i", 2, 3, true, false, false); break;
case 20: matrix_alias<matrix34i, int>("matrix34i", 3, 4, false, false, false); break;
case 21: matrix_alias<external34i, int>("external34i", 3, 4, true, false, false); break;
case 22: matrix_alias<matrixi, int>("matrixi", -1, -1, false, false, false); break;
case 23: matrix_alias<externalmni, int>("externalmni", -1, -1, true, false, false); break;
case 24: matrix_alias<matrix22i_r, int>("matrix22i_r", 2, 2, false, true, false); break;
case 25: matrix_alias<external22i_r, int>("external22i_r", 2, 2, true, true, false); break;
case 26: matrix_alias<matrix33i_r, int>("matrix33i_r", 3, 3, false, true, false); break;
case 27: matrix_alias<external33i_r, int>("external33i_r", 3, 3, true, true, false); break;
case 28: matrix_alias<matrix44i_r, int>("matrix44i_r", 4, 4, false, true, false); break;
case 29: matrix_alias<external44i_r, int>("external44i_r", 4, 4, true, true, false); break;
case 30: matrix_alias<matrix32i_r, int>("matrix32i_r", 3, 2, false, true, false); break;
case 31: matrix_alias<external32i_r, int>("external32i_r", 3, 2, true, true, false); break;
case 32: matrix_alias<matrix43i_r, int>("matrix43i_r", 4, 3, false, true, false); break;
case 33: matrix_alias<external43i_r, int>("external43i_r", 4, 3, true, true, false); break;
case 34: matrix_alias<matrixi_r, int>("matrixi_r", -1, -1, false, true, false); break;
case 35: matrix_alias<externalmni_r, int>("externalmni_r", -1, -1, true, true, false); break;
case 36: matrix_alias<matrix22i_c, int>("matrix22i_c", 2, 2, false, false, true); break;
case 37: matrix_alias<external22i_c, int>("external22i_c", 2, 2, true, false, true); break;
case 38: matrix_alias<matrix33i_c, int>("matrix33i_c", 3, 3, false, false, true); break;
case 39: matrix_alias<external33i_c, int>("external33i_c", 3, 3, true, false, true); break;
case 40: matrix_alias<matrix44i_c, int>("matrix44i_c", 4, 4, false, false, true); break;
case 41: matrix_alias<external44i_c, int>("external44i_c", 4, 4, true, false, true); break;
case 42: matrix_alias<matrix23i_c, int>("matrix23i_c", 2, 3, false, false, true); break;
case 43: matrix_alias<external23i_c, int>("external23i_c", 2, 3, true, false, true); break;
case 44: matrix_alias<matrix34i_c, int>("matrix34i_c", 3, 4, false, false, true); break;
case 45: matrix_alias<external34i_c, int>("external34i_c", 3, 4, true, false, true); break;
case 46: matrix_alias<matrixi_c, int>("matrixi_c", -1, -1, false, false, true); break;
case 47: matrix_alias<externalmni_c, int>("externalmni_c", -1, -1, true, false, true); break;
case 48: vector_alias<vector2f, float>("vector2f", 2, false); break;
case 49: vector_alias<external2f, float>("external2f", 2, true); break;
case 50: vector_alias<external2cf, const float>("external2cf", 2, true); break;
case 51: vector_alias<vector3f, float>("vector3f", 3, false); break;
case 52: vector_alias<external3f, float>("external3f", 3, true); break;
case 53: vector_alias<external3cf, const float>("external3cf", 3, true); break;
case 54: vector_alias<vector4f, float>("vector4f", 4, false); break;
case 55: vector_alias<external4f, float>("external4f", 4, true); break;
case 56: vector_alias<external4cf, const float>("external4cf", 4, true); break;
case 57: vector_alias<vectorf, float>("vectorf", -1, false); break;
case 58: vector_alias<externalnf, float>("externalnf", -1, true); break;
case 59: vector_alias<externalncf, const float>("externalncf", -1, true); break;
case 60: matrix_alias<matrix22f, float>("matrix22f", 2, 2, false, false, false); break;
case 61: matrix_alias<external22f, float>("external22f", 2, 2, true, false, false); break;
case 62: matrix_alias<matrix33f, float>("matrix33f", 3, 3, false, false, false); break;
case 63: matrix_alias<external33f, float>("external33f", 3, 3, true, false, false); break;
case 64: matrix_alias<matrix44f, float>("matrix44f", 4, 4, false, false, false); break;
case 65: matrix_alias<external44f, float>("external44f", 4, 4, true, false, false); break;
case 66: matrix_alias<matrix23f, float>("matrix23f", 2, 3, false, false, false); break;
case 67: matrix_alias<external23f, float>("external23f", 2, 3, true, false, false); break;
case 68: matrix_alias<matrix34f, float>("matrix34f", 3, 4, false, false, false); break;
case 69: matrix_alias<external34f, float>("external34f", 3, 4, true, false, false); break;
case 70: matrix_alias<matrix32f, float>("matrix32f", 3, 2, false, false, false); break;
case 71: matrix_alias<matrixf, float>("matrixf", -1, -1, false, false, false); break;
case 72: matrix_alias<externalmnf, float>("externalmnf", -1, -1, true, false, false); break;
case 73: matrix_alias<matrix22f_r, float>("matrix22f_r", 2, 2, false, true, false); break;
case 74: matrix_alias<external22f_r, float>("external22f_r", 2, 2, true, true, false); break;
case 75: matrix_alias<matrix33f_r, float>("matrix33f_r", 3, 3, false, true, false); break;
case 76: matrix_alias<external33f_r, float>("external33f_r", 3, 3, true, true, false); break;
case 77: matrix_alias<matrix44f_r, float>("matrix44f_r", 4, 4, false, true, false); break;
case 78: matrix_alias<external44f_r, float>("external44f_r", 4, 4, true, true, false); break;
case 79: matrix_alias<matrix32f_r, float>("matrix32f_r", 3, 2, false, true, false); break;
case 80: matrix_alias<external32f_r, float>("external32f_r", 3, 2, true, true, false); break;
case 81: matrix_alias<matrix43f_r, float>("matrix43f_r", 4, 3, false, true, false); break;
case 82: matrix_alias<external43f_r, float>("external43f_r", 4, 3, true, true, false); break;
case 83: matrix_alias<matrixf_r, float>("matrixf_r", -1, -1, false, true, false); break;
case 84: matrix_alias<externalmnf_r, float>("externalmnf_r", -1, -1, true, true, false); break;
case 85: matrix_alias<matrix22f_c, float>("matrix22f_c", 2, 2, false, false, true); break;
case 86: matrix_alias<external22f_c, float>("external22f_c", 2, 2, true, false, true); break;
case 87: matrix_alias<matrix33f_c, float>("matrix33f_c", 3, 3, false, false, true); break;
case 88: matrix_alias<external33f_c, float>("external33f_c", 3, 3, true, false, true); break;
case 89: matrix_alias<matrix44f_c, float>("matrix44f_c", 4, 4, false, false, true); break;
case 90: matrix_alias<external44f_c, float>("external44f_c", 4, 4, true, false, true); break;
case 91: matrix_alias<matrix23f_c, float>("matrix23f_c", 2, 3, false, false, true); break;
case 92: matrix_alias<external23f_c, float>("external23f_c", 2, 3, true, false, true); break;
case 93: matrix_alias<matrix34f_c, float>("matrix34f_c", 3, 4, false, false, true); break;
case 94: matrix_alias<external34f_c, float>("external34f_c", 3, 4, true, false, true); break;
case 95: matrix_alias<matrixf_c, float>("matrixf_c", -1, -1, false, false, true); break;
case 96: matrix_alias<externalmnf_c, float>("externalmnf_c", -1, -1, true, false, true); break;
case 97: vector_alias<vector2d, double>("vector2d", 2, false); break;
case 98: vector_alias<external2d, double>("external2d", 2, true); break;
case 99: vector_alias<external2cd, const double>("external2cd", 2, true); break;
case 100: vector_alias<vector3d, double>("vector3d", 3, false); break;
case 101: vector_alias<external3d, double>("external3d", 3, true); break;
case 102: vector_alias<external3cd, const double>("external3cd", 3, true); break;
case 103: vector_alias<vector4d, double>("vector4d", 4, false); break;
case 104: vector_alias<external4d, double>("external4d", 4, true); break;
case 105: vector_alias<external4cd, const double>("external4cd", 4, true); break;
case 106: vector_alias<vectord, double>("vectord", -1, false); break;
case 107: vector_alias<externalnd, double>("externalnd", -1, true); break;
case 108: vector_alias<externalncd, const double>("externalncd", -1, true); break;
case 109: matrix_alias<matrix22d, double>("matrix22d", 2, 2, false, false, false); break;
case 110: matrix_alias<external22d, double>("external22d", 2, 2, true, false, false); break;
case 111: matrix_alias<matrix33d, double>("matrix33d", 3, 3, false, false, false); break;
case 112: matrix_alias<external33d, double>("external33d", 3, 3, true, false, false); break;
case 113: matrix_alias<matrix44d, double>("matrix44d", 4, 4, false, false, false); break;
case 114: matrix_alias<external44d, double>("external44d", 4, 4, true, false, false); break;
case 115: matrix_alias<matrix23d, double>("matrix23d", 2, 3, false, false, false); break;
case 116: matrix_alias<external23d, double>("external23d", 2, 3, true, false, false); break;
case 117: matrix_alias<matrix34d, double>("matrix34d", 3, 4, false, false, false); break;
case 118: matrix_alias<external34d, double>("external34d", 3, 4, true, false, false); break;
case 119: matrix_alias<matrixd, double>("matrixd", -1, -1, false, false, false); break;
case 120: matrix_alias<externalmnd, double>("externalmnd", -1, -1, true, false, false); break;
case 121: matrix_alias<matrix22d_r, double>("matrix22d_r", 2, 2, false, true, false); break;
case 122: matrix_alias<external22d_r, double>("external22d_r", 2, 2, true, true, false); break;
case 123: matrix_alias<matrix33d_r, double>("matrix33d_r", 3, 3, false, true, false); break;
case 124: matrix_alias<external33d_r, double>("external33d_r", 3, 3, true, true, false); break;
case 125: matrix_alias<matrix44d_r, double>("matrix44d_r", 4, 4, false, true, false); break;
case 126: matrix_alias<external44d_r, double>("external44d_r", 4, 4, true, true, false); break;
case 127: matrix_alias<matrix32d_r, double>("matrix32d_r", 3, 2, false, true, false); break;
case 128: matrix_alias<external32d_r, double>("external32d_r", 3, 2, true, true, false); break;
case 129: matrix_alias<matrix43d_r, double>("matrix43d_r", 4, 3, false, true, false); break;
case 130: matrix_alias<external43d_r, double>("external43d_r", 4, 3, true, true, false); break;
case 131: matrix_alias<matrixd_r, double>("matrixd_r", -1, -1, false, true, false); break;
case 132: matrix_alias<externalmnd_r, double>("externalmnd_r", -1, -1, true, true, false); break;
case 133: matrix_alias<matrix22d_c, double>("matrix22d_c", 2, 2, false, false, true); break;
case 134: matrix_alias<external22d_c, double>("external22d_c", 2, 2, true, false, true); break;
case 135: matrix_alias<matrix33d_c, double>("matrix33d_c", 3, 3, false, false, true); break;
case 136: matrix_alias<external33d_c, double>("external33d_c", 3, 3, true, false, true); break;
case 137: matrix_alias<matrix44d_c, double>("matrix44d_c", 4, 4, false, false, true); break;
case 138: matrix_alias<external44d_c, double>("external44d_c", 4, 4, true, false, true); break;
case 139: matrix_alias<matrix23d_c, double>("matrix23d_c", 2, 3, false, false, true); break;
case 140: matrix_alias<external23d_c, double>("external23d_c", 2, 3, true, false, true); break;
case 141: matrix_alias<matrix34d_c, double>("matrix34d_c", 3, 4, false, false, true); break;
case 142: matrix_alias<external34d_c, double>("external34d_c", 3, 4, true, false, true); break;
case 143: matrix_alias<matrixd_c, double>("matrixd_c", -1, -1, false, false, true); break;
case 144: matrix_alias<externalmnd_c, double>("externalmnd_c", -1, -1, true, false, true); break;
case 145: quaternion_alias<quaternionf_ip, float>("quaternionf_ip", false, false); break;
case 146: quaternion_alias<quaternionf_p, float>("quaternionf_p", false, false); break;
case 147: quaternion_alias<quaternionf_in, float>("quaternionf_in", false, true); break;
case 148: quaternion_alias<quaternionf_n, float>("quaternionf_n", false, true); break;
case 149: quaternion_alias<quaternionf_rp, float>("quaternionf_rp", true, false); break;
case 150: quaternion_alias<quaternionf_rn, float>("quaternionf_rn", true, true); break;
case 151: quaternion_alias<quaterniond_ip, double>("quaterniond_ip", false, false); break;
case 152: quaternion_alias<quaterniond_p, double>("quaterniond_p", false, false); break;
case 153: quaternion_alias<quaterniond_in, double>("quaterniond_in", false, true); break;
case 154: quaternion_alias<quaterniond_n, double>("quaterniond_n", false, true); break;
case 155: quaternion_alias<quaterniond_rp, double>("quaterniond_rp", true, false); break;
case 156: quaternion_alias<quaterniond_rn, double>("quaterniond_rn", true, true); break;
}
});
} } r; } }
