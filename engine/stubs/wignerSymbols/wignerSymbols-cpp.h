// Declarations only: lets clang parse the sources that use the (absent) wignerSymbols library.
#pragma once
#include <vector>
namespace WignerSymbols {
std::vector<double> wigner3j(double l2, double l3, double m1, double m2, double m3);
double wigner3j(double l1, double l2, double l3, double m1, double m2, double m3);
double clebschGordan(double l1, double l2, double l3, double m1, double m2, double m3);
std::vector<double> wigner6j(double l2, double l3, double l4, double l5, double l6);
double wigner6j(double l1, double l2, double l3, double l4, double l5, double l6);
} // namespace WignerSymbols
