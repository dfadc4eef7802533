ES="src/estimator/inekf_estimator.cpp"
Q='''               << state_quat.x() << " " << state_quat.y() << " "
               << state_quat.z() << " " << state_quat.w() << std::endl'''
FIX='''    std::string::size_type pos = pose_log_file_.find_last_of("./");
    if (pos != std::string::npos && pose_log_file_[pos] == '.')
'''
M=[
("wxyz","P25",[(ES,Q,Q.replace("state_quat.x() <<","state_quat.w() <<").replace("state_quat.y()","state_quat.x()").replace("state_quat.z()","state_quat.y()").replace("state_quat.w() << std","state_quat.z() << std"))]),
("body-rot","P25",[(ES,"Eigen::Quaterniond state_quat(state_log_ptr->get_world_rotation());","Eigen::Quaterniond state_quat(state_log_ptr->get_rotation());")]),
("gt","P25",[(ES,"time_diff >= 1.0 / pose_log_rate_","time_diff >= pose_log_rate_")]),
("strict","P25",[(ES,"time_diff >= 1.0 / pose_log_rate_","time_diff > 1.0 / pose_log_rate_")]),
("period2","P25",[(ES,"time_diff >= 1.0 / pose_log_rate_","time_diff >= 0.5 / pose_log_rate_")]),
("intdiv","P25",[(ES,"time_diff >= 1.0 / pose_log_rate_","time_diff >= 1 / static_cast<int>(pose_log_rate_)")]),
("last-always","P25",[(ES,"      last_pub_t_ = state_log_ptr->get_time();\n    }","    }\n    last_pub_t_ = state_log_ptr->get_time();")]),
("last-grid","P25",[(ES,"      last_pub_t_ = state_log_ptr->get_time();\n    }","      last_pub_t_ += 1.0 / pose_log_rate_;\n    }")]),
("last-prop","P25",[(ES,"      last_pub_t_ = state_log_ptr->get_time();\n    }","      last_pub_t_ = state_log_ptr->get_propagate_time();\n    }")]),
("time","P25",[(ES,"      outfile_ << state_log_ptr->get_time() << \" \"","      outfile_ << state_log_ptr->get_propagate_time() << \" \"")]),
("velframe","P25",[(ES,"<< state_log_ptr->get_body_velocity()(1) << \" \"","<< state_log_ptr->get_world_velocity()(1) << \" \"")]),
("idx","P25",[(ES,"               << state_log_ptr->get_world_position()(2) << \" \"","               << state_log_ptr->get_world_position()(1) << \" \"")]),
("back","P25",[(ES,"        = robot_state_log_queue_ptr_.get()->front();","        = robot_state_log_queue_ptr_.get()->back();")]),
("precision","P25",[(ES,"    vel_outfile_.open(vel_log_file_ + \".txt\");\n    vel_outfile_.precision(dbl::max_digits10);","    vel_outfile_.open(vel_log_file_ + \".txt\");")]),
("precision2","P25",[(ES,"    vel_outfile_.open(vel_log_file_ + \".txt\");\n    vel_outfile_.precision(dbl::max_digits10);","    vel_outfile_.open(vel_log_file_ + \".txt\");\n    vel_outfile_.precision(dbl::digits10);")]),
("dotdir","P25",[(ES,FIX,'''    std::string::size_type pos = pose_log_file_.find_last_of(".");
    if (pos != std::string::npos)
''')]),
("firstdot","P25",[(ES,FIX,'''    std::string::size_type pos = pose_log_file_.find_first_of(".");
    if (pos != std::string::npos)
''')]),
("samefile","P25",[(ES,"vel_body_outfile_.open(vel_log_file_ + \"_body_frame.txt\");","vel_body_outfile_.open(vel_log_file_ + \".txt\");")]),
("posevel","P25",[(ES,"? config[\"logger\"][\"vel_log_file\"].as<std::string>()","? config[\"logger\"][\"pose_log_file\"].as<std::string>()")]),
("noclose","P25",[(ES,"    vel_outfile_.close();\n    vel_outfile_.open","    vel_outfile_.open")]),
("overwrite","P25",[(ES,"std::to_string(++init_count_)","std::to_string(init_count_)")]),
("overwrite2","P25",[(ES,"    outfile_.open(pose_log_file_ + '_' + std::to_string(++init_count_)\n                  + \".txt\");","    ++init_count_;\n    outfile_.open(pose_log_file_ + \".txt\");")]),
("noresett","P25",[(ES,"    last_pub_t_ = 0.0;\n","")]),
("newdebug","P25",[("src/filter/inekf/correction/legged_kinematics_correction.cpp","LeggedKinematicsCorrection::~","") if False else ("src/filter/inekf/correction/velocity_correction.cpp","est_vel_outfile_.open(est_vel_file);","est_vel_outfile_.open(\"/tmp/est_vel.txt\");")]),
("eq-mul","=P25",[(ES,"time_diff >= 1.0 / pose_log_rate_","!(time_diff * pose_log_rate_ < 1.0)")]),
("eq-nl","=P25",[(ES,"<< state_quat.z() << \" \" << state_quat.w() << std::endl\n               << std::flush;","<< state_quat.z() << ' ' << state_quat.w() << '\\n';\n      outfile_.flush();")]),
("eq-loc","=P25",[(ES,"    double time_diff = state_log_ptr->get_time() - last_pub_t_;\n    if (enable_pose_logger_ && time_diff >= 1.0 / pose_log_rate_) {","    const double t_now = state_log_ptr->get_time();\n    if (!enable_pose_logger_ || t_now - last_pub_t_ < 1.0 / pose_log_rate_) continue;\n    {\n")]),
("eq-pos","=P25",[(ES,'''               << state_log_ptr->get_world_position()(0) << " "
               << state_log_ptr->get_world_position()(1) << " "
               << state_log_ptr->get_world_position()(2) << " "
''','''               ;
      const Eigen::Vector3d wp = state_log_ptr->get_world_position();
      outfile_ << wp(0) << " " << wp.y() << " " << wp[2] << " "
''')]),
("eq-posloop","=P25",[(ES,'''               << state_log_ptr->get_world_position()(0) << " "
               << state_log_ptr->get_world_position()(1) << " "
               << state_log_ptr->get_world_position()(2) << " "
''','''               ;
      for (int i = 0; i < 3; ++i)
        outfile_ << state_log_ptr->get_world_position()(i) << " ";
      outfile_
''')]),
("eq-find","=P25",[(ES,FIX,'''    std::string::size_type pos = pose_log_file_.rfind('.');
    const std::string::size_type slash = pose_log_file_.rfind('/');
    if (pos != std::string::npos && (slash == std::string::npos || slash < pos))
''')]),
]
