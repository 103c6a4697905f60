#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
template class PANSFEM2::Vector<double>;
template class PANSFEM2::Matrix<double>;
template PANSFEM2::Vector<double> PANSFEM2::operator*<double>(double, const PANSFEM2::Vector<double>&);
template PANSFEM2::Vector<double> PANSFEM2::VectorProduct<double>(PANSFEM2::Vector<double>, PANSFEM2::Vector<double>);
template PANSFEM2::Matrix<double> PANSFEM2::operator*<double>(double, const PANSFEM2::Matrix<double>&);
template PANSFEM2::Matrix<double> PANSFEM2::Identity<double>(int);
template PANSFEM2::Matrix<double> PANSFEM2::Diagonal<double>(const PANSFEM2::Vector<double>&);
