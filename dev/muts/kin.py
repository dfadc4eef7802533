MC="src/kinematics/mini_cheetah_kinematics.cpp"; G="src/kinematics/robots/mini_cheetah/"; LK="src/measurement/legged_kinematics.cpp"
JB="      = Jp_Body_to_HindLeftFoot(encoders_).block(0, HL * NAPL, 3, NAPL);"
M=[
("slot-p","P21",[(MC,"positions_.col(HR) = p_Body_to_HindRightFoot(encoders_);","positions_.col(HR) = p_Body_to_HindLeftFoot(encoders_);")]),
("slot-col","P21",[(MC,"positions_.col(HL) = p_Body","positions_.col(HR) = p_Body")]),
("slot-J","P21",[(MC,JB,JB.replace("HindLeft","FrontLeft"))]),
("block-J","P21",[(MC,JB,JB.replace("HL *","HR *"))]),
("block-J2","P21",[(MC,"  jacobians_.block(0, FL * NAPL, 3, NAPL)\n","  jacobians_.block(0, FL * NLEG, 3, NAPL)\n")]),
("sign-p","P21",[(G+"Jp_Body_to_HindLeftFoot.cpp","t1042 = -0.209 * t1041;","t1042 = 0.209 * t1041;")]),
("joint","P21",[(G+"Jp_Body_to_HindLeftFoot.cpp","t1041 = Sin(var1[11]);","t1041 = Sin(var1[8]);")]),
("off","P21",[(G+"p_Body_to_FrontRightFoot.cpp","- 0.049 * (1. - 1. * t914)","+ 0.049 * (1. - 1. * t914)")]),
("off2","P21",[(G+"p_Body_to_FrontRightFoot.cpp","- 0.062 * t919","+ 0.062 * t919")]),
("digit","P21",[(G+"p_Body_to_FrontRightFoot.cpp","- 0.4165 * (t863 * t885 * t914","- 0.4156 * (t863 * t885 * t914")]),
("jwb","P21",[(G+"Jwb_Body_to_HindLeftFoot.cpp","t2163 = Sin(var1[11]);","t2163 = -Sin(var1[11]);")]),
("vel-skew","P21",[(MC,"velocity = -J_pRH * d_encoders_ - lie_group::skew(w) * pRH;","velocity = -J_pRH * d_encoders_ + lie_group::skew(w) * pRH;")]),
("vel-noskew","P21",[(MC,"velocity = -J_pLH * d_encoders_ - lie_group::skew(w) * pLH;","velocity = -J_pLH * d_encoders_;")]),
("vel-leg","P21",[(MC,"} else if (this->get_contact(HL) == 1) {","} else {")]),
("vel-leg2","P21",[(MC,"else if (this->get_contact(FL) == 1)","else if (this->get_contact(HR) == 1)")]),
("vel-enc","P21",[(MC,"velocity = -J_pRF * d_encoders_ -","velocity = -J_pRF * encoders_ -")]),
("dencoders","P21",[(LK,"      d_encoders_(d_encoders),\n","      d_encoders_(encoders),\n")]),
("eq-loop","=P21",[(MC,"""  jacobians_.block(0, FR * NAPL, 3, NAPL)
      = Jp_Body_to_FrontRightFoot(encoders_).block(0, FR * NAPL, 3, NAPL);""","""  const Eigen::Matrix<double, 3, 12> Jfr = Jp_Body_to_FrontRightFoot(encoders_);
  for (int i = 0; i < NAPL; ++i)
    jacobians_.col(FR * NAPL + i) = Jfr.col(FR * NAPL + i);""")]),
("eq-vel","=P21",[(MC,"velocity = -J_pRF * d_encoders_ - lie_group::skew(w) * pRF;","velocity = pRF.cross(w) - J_pRF.block<3, 3>(0, 3 * FR) * d_encoders_.segment<3>(3 * FR);")]),
("eq-order","=P21",[(MC,"""  if (this->get_contact(FR) == 1) {
    Eigen::Vector3d pRF = p_Body_to_FrontRightFoot(encoders_);    // {I}_p_{IRF}
    Eigen::Matrix<double, 3, 12> J_pRF = Jp_Body_to_FrontRightFoot(encoders_);
    velocity = -J_pRF * d_encoders_ - lie_group::skew(w) * pRF;    // {I}_v_{WI}
  } else if""","""  if""")]) if False else ("eq-gen","=P21",[(G+"p_Body_to_FrontRightFoot.cpp","- 0.062 * t919 + t914 * t921","- t919 * 0.062 + t921 * t914")]),
]
