LG="include/drift/math/lie_group.h"; OD="include/drift/measurement/odom.h"; RS="include/drift/state/robot_state.h"; CO="include/drift/measurement/contact.h"
II="include/drift/measurement/impl/imu_impl.cpp"; TD="include/drift/utils/type_def.h"; MM="include/drift/measurement/measurement.h"
ADJ="Eigen::MatrixXd Adjoint_SEK3(const Eigen::MatrixXd& X);\n"
M=[
("noguard-odom","P27",[(OD,"#ifndef MEASUREMENT_ODOM_H\n","#if 1\n")]),
("dupguard-odom","P27",[(OD,"#ifndef MEASUREMENT_ODOM_H\n#define MEASUREMENT_ODOM_H","#ifndef MEASUREMENT_IMU_H\n#define MEASUREMENT_IMU_H")]),
("dupguard-contact","P27",[(CO,"#ifndef MEASUREMENT_CONTACT_H\n#define MEASUREMENT_CONTACT_H","#ifndef MEASUREMENT_ODOM_H\n#define MEASUREMENT_ODOM_H")]),
("noninline-fn","P27",[(LG,ADJ,ADJ+"Eigen::Matrix3d Identity_SO3() { return Eigen::Matrix3d::Identity(); }\n")]),
("noninline-var","P27",[(LG,ADJ,ADJ+"double kTolerance = 1e-10;\n")]),
("extern-const","P27",[(LG,ADJ,ADJ+"extern const double kTolerance;\nconst double kTolerance = 1e-10;\n")]),
("fullspec","P27",[(II,"template<typename T>","template<>\nvoid ImuMeasurement<double>::clear_probe() {}\ntemplate<typename T>"),]) if False else
("undef-fn","P27",[(LG,ADJ,ADJ+"Eigen::MatrixXd Log_SEK3(const Eigen::MatrixXd& X);\n")]),
("undef-method","P27",[(RS,"  void clear();\n","  void clear();\n  void resetAll();\n")]) if False else
("missing-eigen","P27",[(LG,"#include <Eigen/Dense>\n","")]),
("missing-base","P27",[(OD,'#include "measurement.h"\n',"")]),
("pragma","=P27",[(OD,"#ifndef MEASUREMENT_ODOM_H\n#define MEASUREMENT_ODOM_H","#pragma once"),(OD,"#endif    // MEASUREMENT_ODOM_H","")]),
("inline-fn","=P27",[(LG,ADJ,ADJ+"inline Eigen::Matrix3d Identity_SO3() { return Eigen::Matrix3d::Identity(); }\nconstexpr double kTol = 1e-10;\nconst double kTol2 = 1e-9;\ninline double kTol3 = 2;\ntemplate<class T> T twice(T x) { return x + x; }\n")]),
("private-undef","=P27",[(RS,"private:","private:\n  void not_for_users();\n")]) if False else
("rename-guard","=P27",[(OD,"#ifndef MEASUREMENT_ODOM_H\n#define MEASUREMENT_ODOM_H","#ifndef DRIFT_ODOM_HH\n#define DRIFT_ODOM_HH")]),
]
