// X(namespace, type, enumerator, name in the file format), checked against the COLLADA 1.4.1 specification
X(FUDaeInterpolation, Interpolation, STEP, "STEP")
X(FUDaeInterpolation, Interpolation, LINEAR, "LINEAR")
X(FUDaeInterpolation, Interpolation, BEZIER, "BEZIER")
X(FUDaeInterpolation, Interpolation, TCB, "TCB")
X(FUDaeSplineType, Type, LINEAR, "LINEAR")
X(FUDaeSplineType, Type, BEZIER, "BEZIER")
X(FUDaeSplineType, Type, NURBS, "NURBS")
X(FUDaeSplineForm, Form, OPEN, "OPEN")
X(FUDaeSplineForm, Form, CLOSED, "CLOSED")
X(FUDaeTextureWrapMode, WrapMode, NONE, "NONE")
X(FUDaeTextureWrapMode, WrapMode, WRAP, "WRAP")
X(FUDaeTextureWrapMode, WrapMode, MIRROR, "MIRROR")
X(FUDaeTextureWrapMode, WrapMode, CLAMP, "CLAMP")
X(FUDaeTextureWrapMode, WrapMode, BORDER, "BORDER")
X(FUDaeTextureFilterFunction, FilterFunction, NONE, "NONE")
X(FUDaeTextureFilterFunction, FilterFunction, NEAREST, "NEAREST")
X(FUDaeTextureFilterFunction, FilterFunction, LINEAR, "LINEAR")
X(FUDaeTextureFilterFunction, FilterFunction, NEAREST_MIPMAP_NEAREST, "NEAREST_MIPMAP_NEAREST")
X(FUDaeTextureFilterFunction, FilterFunction, LINEAR_MIPMAP_NEAREST, "LINEAR_MIPMAP_NEAREST")
X(FUDaeTextureFilterFunction, FilterFunction, NEAREST_MIPMAP_LINEAR, "NEAREST_MIPMAP_LINEAR")
X(FUDaeTextureFilterFunction, FilterFunction, LINEAR_MIPMAP_LINEAR, "LINEAR_MIPMAP_LINEAR")
X(FUDaeMorphMethod, Method, NORMALIZED, "NORMALIZED")
X(FUDaeMorphMethod, Method, RELATIVE, "RELATIVE")
X(FUDaeInfinity, Infinity, CONSTANT, "CONSTANT")
X(FUDaeInfinity, Infinity, LINEAR, "LINEAR")
X(FUDaeInfinity, Infinity, CYCLE, "CYCLE")
X(FUDaeInfinity, Infinity, CYCLE_RELATIVE, "CYCLE_RELATIVE")
X(FUDaeInfinity, Infinity, OSCILLATE, "OSCILLATE")
X(FUDaeBlendMode, Mode, NONE, "NONE")
X(FUDaeBlendMode, Mode, OVER, "OVER")
X(FUDaeBlendMode, Mode, IN, "IN")
X(FUDaeBlendMode, Mode, OUT, "OUT")
X(FUDaeBlendMode, Mode, ADD, "ADD")
X(FUDaeBlendMode, Mode, SUBTRACT, "SUBTRACT")
X(FUDaeBlendMode, Mode, MULTIPLY, "MULTIPLY")
X(FUDaeBlendMode, Mode, DIFFERENCE, "DIFFERENCE")
X(FUDaeBlendMode, Mode, LIGHTEN, "LIGHTEN")
X(FUDaeBlendMode, Mode, DARKEN, "DARKEN")
X(FUDaeBlendMode, Mode, SATURATE, "SATURATE")
X(FUDaeBlendMode, Mode, DESATURATE, "DESATURATE")
X(FUDaeBlendMode, Mode, ILLUMINATE, "ILLUMINATE")
X(FUDaeGeometryInput, Semantic, POSITION, "POSITION")
X(FUDaeGeometryInput, Semantic, VERTEX, "VERTEX")
X(FUDaeGeometryInput, Semantic, NORMAL, "NORMAL")
X(FUDaeGeometryInput, Semantic, GEOTANGENT, "TANGENT")
X(FUDaeGeometryInput, Semantic, GEOBINORMAL, "BINORMAL")
X(FUDaeGeometryInput, Semantic, TEXCOORD, "TEXCOORD")
X(FUDaeGeometryInput, Semantic, TEXTANGENT, "TEXTANGENT")
X(FUDaeGeometryInput, Semantic, TEXBINORMAL, "TEXBINORMAL")
X(FUDaeGeometryInput, Semantic, UV, "UV")
X(FUDaeGeometryInput, Semantic, COLOR, "COLOR")
X(FUDaeGeometryInput, Semantic, EXTRA, "EXTRA")
X(FUDaeGeometryInput, Semantic, POINT_SIZE, "POINT_SIZE")
X(FUDaeGeometryInput, Semantic, POINT_ROTATION, "POINT_ROT")
X(FUDaeProfileType, Type, CG, "profile_CG")
X(FUDaeProfileType, Type, HLSL, "profile_HLSL")
X(FUDaeProfileType, Type, GLSL, "profile_GLSL")
X(FUDaeProfileType, Type, GLES, "profile_GLES")
X(FUDaeProfileType, Type, COMMON, "profile_COMMON")
X(FUDaePassStateFunction, Function, NEVER, "NEVER")
X(FUDaePassStateFunction, Function, LESS, "LESS")
X(FUDaePassStateFunction, Function, EQUAL, "EQUAL")
X(FUDaePassStateFunction, Function, LESS_EQUAL, "LEQUAL")
X(FUDaePassStateFunction, Function, GREATER, "GREATER")
X(FUDaePassStateFunction, Function, NOT_EQUAL, "NOTEQUAL")
X(FUDaePassStateFunction, Function, GREATER_EQUAL, "GEQUAL")
X(FUDaePassStateFunction, Function, ALWAYS, "ALWAYS")
X(FUDaePassStateStencilOperation, Operation, KEEP, "KEEP")
X(FUDaePassStateStencilOperation, Operation, ZERO, "ZERO")
X(FUDaePassStateStencilOperation, Operation, REPLACE, "REPLACE")
X(FUDaePassStateStencilOperation, Operation, INCREMENT, "INCR")
X(FUDaePassStateStencilOperation, Operation, DECREMENT, "DECR")
X(FUDaePassStateStencilOperation, Operation, INVERT, "INVERT")
X(FUDaePassStateStencilOperation, Operation, INCREMENT_WRAP, "INCR_WRAP")
X(FUDaePassStateStencilOperation, Operation, DECREMENT_WRAP, "DECR_WRAP")
X(FUDaePassStateBlendType, Type, ZERO, "ZERO")
X(FUDaePassStateBlendType, Type, ONE, "ONE")
X(FUDaePassStateBlendType, Type, SOURCE_COLOR, "SRC_COLOR")
X(FUDaePassStateBlendType, Type, ONE_MINUS_SOURCE_COLOR, "ONE_MINUS_SRC_COLOR")
X(FUDaePassStateBlendType, Type, DESTINATION_COLOR, "DEST_COLOR")
X(FUDaePassStateBlendType, Type, ONE_MINUS_DESTINATION_COLOR, "ONE_MINUS_DEST_COLOR")
X(FUDaePassStateBlendType, Type, SOURCE_ALPHA, "SRC_ALPHA")
X(FUDaePassStateBlendType, Type, ONE_MINUS_SOURCE_ALPHA, "ONE_MINUS_SRC_ALPHA")
X(FUDaePassStateBlendType, Type, DESTINATION_ALPHA, "DEST_ALPHA")
X(FUDaePassStateBlendType, Type, ONE_MINUS_DESTINATION_ALPHA, "ONE_MINUS_DEST_ALPHA")
X(FUDaePassStateBlendType, Type, CONSTANT_COLOR, "CONSTANT_COLOR")
X(FUDaePassStateBlendType, Type, ONE_MINUS_CONSTANT_COLOR, "ONE_MINUS_CONSTANT_COLOR")
X(FUDaePassStateBlendType, Type, CONSTANT_ALPHA, "CONSTANT_ALPHA")
X(FUDaePassStateBlendType, Type, ONE_MINUS_CONSTANT_ALPHA, "ONE_MINUS_CONSTANT_ALPHA")
X(FUDaePassStateBlendType, Type, SOURCE_ALPHA_SATURATE, "SRC_ALPHA_SATURATE")
X(FUDaePassStateFaceType, Type, FRONT, "FRONT")
X(FUDaePassStateFaceType, Type, BACK, "BACK")
X(FUDaePassStateFaceType, Type, FRONT_AND_BACK, "FRONT_AND_BACK")
X(FUDaePassStateBlendEquation, Equation, ADD, "FUNC_ADD")
X(FUDaePassStateBlendEquation, Equation, SUBTRACT, "FUNC_SUBTRACT")
X(FUDaePassStateBlendEquation, Equation, REVERSE_SUBTRACT, "FUNC_REVERSE_SUBTRACT")
X(FUDaePassStateBlendEquation, Equation, MIN, "MIN")
X(FUDaePassStateBlendEquation, Equation, MAX, "MAX")
X(FUDaePassStateMaterialType, Type, EMISSION, "EMISSION")
X(FUDaePassStateMaterialType, Type, AMBIENT, "AMBIENT")
X(FUDaePassStateMaterialType, Type, DIFFUSE, "DIFFUSE")
X(FUDaePassStateMaterialType, Type, SPECULAR, "SPECULAR")
X(FUDaePassStateMaterialType, Type, AMBIENT_AND_DIFFUSE, "AMBIENT_AND_DIFFUSE")
X(FUDaePassStateFogType, Type, LINEAR, "LINEAR")
X(FUDaePassStateFogType, Type, EXP, "EXP")
X(FUDaePassStateFogType, Type, EXP2, "EXP2")
X(FUDaePassStateFogCoordinateType, Type, FOG_COORDINATE, "FOG_COORDINATE")
X(FUDaePassStateFogCoordinateType, Type, FRAGMENT_DEPTH, "FRAGMENT_DEPTH")
X(FUDaePassStateFrontFaceType, Type, CLOCKWISE, "CW")
X(FUDaePassStateFrontFaceType, Type, COUNTER_CLOCKWISE, "CCW")
X(FUDaePassStateLogicOperation, Operation, CLEAR, "CLEAR")
X(FUDaePassStateLogicOperation, Operation, AND, "AND")
X(FUDaePassStateLogicOperation, Operation, AND_REVERSE, "AND_REVERSE")
X(FUDaePassStateLogicOperation, Operation, COPY, "COPY")
X(FUDaePassStateLogicOperation, Operation, AND_INVERTED, "AND_INVERTED")
X(FUDaePassStateLogicOperation, Operation, NOOP, "NOOP")
X(FUDaePassStateLogicOperation, Operation, XOR, "XOR")
X(FUDaePassStateLogicOperation, Operation, OR, "OR")
X(FUDaePassStateLogicOperation, Operation, NOR, "NOR")
X(FUDaePassStateLogicOperation, Operation, EQUIV, "EQUIV")
X(FUDaePassStateLogicOperation, Operation, INVERT, "INVERT")
X(FUDaePassStateLogicOperation, Operation, OR_REVERSE, "OR_REVERSE")
X(FUDaePassStateLogicOperation, Operation, COPY_INVERTED, "COPY_INVERTED")
X(FUDaePassStateLogicOperation, Operation, NAND, "NAND")
X(FUDaePassStateLogicOperation, Operation, SET, "SET")
X(FUDaePassStatePolygonMode, Mode, POINT, "POINT")
X(FUDaePassStatePolygonMode, Mode, LINE, "LINE")
X(FUDaePassStatePolygonMode, Mode, FILL, "FILL")
X(FUDaePassStateShadeModel, Model, FLAT, "FLAT")
X(FUDaePassStateShadeModel, Model, SMOOTH, "SMOOTH")
X(FUDaePassStateLightModelColorControlType, Type, SINGLE_COLOR, "SINGLE_COLOR")
X(FUDaePassStateLightModelColorControlType, Type, SEPARATE_SPECULAR_COLOR, "SEPARATE_SPECULAR_COLOR")
X(FUDaePassState, State, ALPHA_FUNC, "alpha_func")
X(FUDaePassState, State, BLEND_FUNC, "blend_func")
X(FUDaePassState, State, BLEND_FUNC_SEPARATE, "blend_func_separate")
X(FUDaePassState, State, BLEND_EQUATION, "blend_equation")
X(FUDaePassState, State, BLEND_EQUATION_SEPARATE, "blend_equation_separate")
X(FUDaePassState, State, COLOR_MATERIAL, "color_material")
X(FUDaePassState, State, CULL_FACE, "cull_face")
X(FUDaePassState, State, DEPTH_FUNC, "depth_func")
X(FUDaePassState, State, FOG_MODE, "fog_mode")
X(FUDaePassState, State, FOG_COORD_SRC, "fog_coord_src")
X(FUDaePassState, State, FRONT_FACE, "front_face")
X(FUDaePassState, State, LIGHT_MODEL_COLOR_CONTROL, "light_model_color_control")
X(FUDaePassState, State, LOGIC_OP, "logic_op")
X(FUDaePassState, State, POLYGON_MODE, "polygon_mode")
X(FUDaePassState, State, SHADE_MODEL, "shade_model")
X(FUDaePassState, State, STENCIL_FUNC, "stencil_func")
X(FUDaePassState, State, STENCIL_OP, "stencil_op")
X(FUDaePassState, State, STENCIL_FUNC_SEPARATE, "stencil_func_separate")
X(FUDaePassState, State, STENCIL_OP_SEPARATE, "stencil_op_separate")
X(FUDaePassState, State, STENCIL_MASK_SEPARATE, "stencil_mask_separate")
X(FUDaePassState, State, LIGHT_ENABLE, "light_enable")
X(FUDaePassState, State, LIGHT_AMBIENT, "light_ambient")
X(FUDaePassState, State, LIGHT_DIFFUSE, "light_diffuse")
X(FUDaePassState, State, LIGHT_SPECULAR, "light_specular")
X(FUDaePassState, State, LIGHT_POSITION, "light_position")
X(FUDaePassState, State, LIGHT_CONSTANT_ATTENUATION, "light_constant_attenuation")
X(FUDaePassState, State, LIGHT_LINEAR_ATTENUATION, "light_linear_attenuation")
X(FUDaePassState, State, LIGHT_QUADRATIC_ATTENUATION, "light_quadratic_attenuation")
X(FUDaePassState, State, LIGHT_SPOT_CUTOFF, "light_spot_cutoff")
X(FUDaePassState, State, LIGHT_SPOT_DIRECTION, "light_spot_direction")
X(FUDaePassState, State, LIGHT_SPOT_EXPONENT, "light_spot_exponent")
X(FUDaePassState, State, TEXTURE1D, "texture1D")
X(FUDaePassState, State, TEXTURE2D, "texture2D")
X(FUDaePassState, State, TEXTURE3D, "texture3D")
X(FUDaePassState, State, TEXTURECUBE, "textureCUBE")
X(FUDaePassState, State, TEXTURERECT, "textureRECT")
X(FUDaePassState, State, TEXTUREDEPTH, "textureDEPTH")
X(FUDaePassState, State, TEXTURE1D_ENABLE, "texture1D_enable")
X(FUDaePassState, State, TEXTURE2D_ENABLE, "texture2D_enable")
X(FUDaePassState, State, TEXTURE3D_ENABLE, "texture3D_enable")
X(FUDaePassState, State, TEXTURECUBE_ENABLE, "textureCUBE_enable")
X(FUDaePassState, State, TEXTURERECT_ENABLE, "textureRECT_enable")
X(FUDaePassState, State, TEXTUREDEPTH_ENABLE, "textureDEPTH_enable")
X(FUDaePassState, State, TEXTURE_ENV_COLOR, "texture_env_color")
X(FUDaePassState, State, TEXTURE_ENV_MODE, "texture_env_mode")
X(FUDaePassState, State, CLIP_PLANE, "clip_plane")
X(FUDaePassState, State, CLIP_PLANE_ENABLE, "clip_plane_enable")
X(FUDaePassState, State, BLEND_COLOR, "blend_color")
X(FUDaePassState, State, CLEAR_COLOR, "clear_color")
X(FUDaePassState, State, CLEAR_STENCIL, "clear_stencil")
X(FUDaePassState, State, CLEAR_DEPTH, "clear_depth")
X(FUDaePassState, State, COLOR_MASK, "color_mask")
X(FUDaePassState, State, DEPTH_BOUNDS, "depth_bounds")
X(FUDaePassState, State, DEPTH_MASK, "depth_mask")
X(FUDaePassState, State, DEPTH_RANGE, "depth_range")
X(FUDaePassState, State, FOG_DENSITY, "fog_density")
X(FUDaePassState, State, FOG_START, "fog_start")
X(FUDaePassState, State, FOG_END, "fog_end")
X(FUDaePassState, State, FOG_COLOR, "fog_color")
X(FUDaePassState, State, LIGHT_MODEL_AMBIENT, "light_model_ambient")
X(FUDaePassState, State, LIGHTING_ENABLE, "lighting_enable")
X(FUDaePassState, State, LINE_STIPPLE, "line_stipple")
X(FUDaePassState, State, LINE_WIDTH, "line_width")
X(FUDaePassState, State, MATERIAL_AMBIENT, "material_ambient")
X(FUDaePassState, State, MATERIAL_DIFFUSE, "material_diffuse")
X(FUDaePassState, State, MATERIAL_EMISSION, "material_emission")
X(FUDaePassState, State, MATERIAL_SHININESS, "material_shininess")
X(FUDaePassState, State, MATERIAL_SPECULAR, "material_specular")
X(FUDaePassState, State, MODEL_VIEW_MATRIX, "model_view_matrix")
X(FUDaePassState, State, POINT_DISTANCE_ATTENUATION, "point_distance_attenuation")
X(FUDaePassState, State, POINT_FADE_THRESHOLD_SIZE, "point_fade_threshold_size")
X(FUDaePassState, State, POINT_SIZE, "point_size")
X(FUDaePassState, State, POINT_SIZE_MIN, "point_size_min")
X(FUDaePassState, State, POINT_SIZE_MAX, "point_size_max")
X(FUDaePassState, State, POLYGON_OFFSET, "polygon_offset")
X(FUDaePassState, State, PROJECTION_MATRIX, "projection_matrix")
X(FUDaePassState, State, SCISSOR, "scissor")
X(FUDaePassState, State, STENCIL_MASK, "stencil_mask")
X(FUDaePassState, State, ALPHA_TEST_ENABLE, "alpha_test_enable")
X(FUDaePassState, State, AUTO_NORMAL_ENABLE, "auto_normal_enable")
X(FUDaePassState, State, BLEND_ENABLE, "blend_enable")
X(FUDaePassState, State, COLOR_LOGIC_OP_ENABLE, "color_logic_op_enable")
X(FUDaePassState, State, COLOR_MATERIAL_ENABLE, "color_material_enable")
X(FUDaePassState, State, CULL_FACE_ENABLE, "cull_face_enable")
X(FUDaePassState, State, DEPTH_BOUNDS_ENABLE, "depth_bounds_enable")
X(FUDaePassState, State, DEPTH_CLAMP_ENABLE, "depth_clamp_enable")
X(FUDaePassState, State, DEPTH_TEST_ENABLE, "depth_test_enable")
X(FUDaePassState, State, DITHER_ENABLE, "dither_enable")
X(FUDaePassState, State, FOG_ENABLE, "fog_enable")
X(FUDaePassState, State, LIGHT_MODEL_LOCAL_VIEWER_ENABLE, "light_model_local_viewer_enable")
X(FUDaePassState, State, LIGHT_MODEL_TWO_SIDE_ENABLE, "light_model_two_side_enable")
X(FUDaePassState, State, LINE_SMOOTH_ENABLE, "line_smooth_enable")
X(FUDaePassState, State, LINE_STIPPLE_ENABLE, "line_stipple_enable")
X(FUDaePassState, State, LOGIC_OP_ENABLE, "logic_op_enable")
X(FUDaePassState, State, MULTISAMPLE_ENABLE, "multisample_enable")
X(FUDaePassState, State, NORMALIZE_ENABLE, "normalize_enable")
X(FUDaePassState, State, POINT_SMOOTH_ENABLE, "point_smooth_enable")
X(FUDaePassState, State, POLYGON_OFFSET_FILL_ENABLE, "polygon_offset_fill_enable")
X(FUDaePassState, State, POLYGON_OFFSET_LINE_ENABLE, "polygon_offset_line_enable")
X(FUDaePassState, State, POLYGON_OFFSET_POINT_ENABLE, "polygon_offset_point_enable")
X(FUDaePassState, State, POLYGON_SMOOTH_ENABLE, "polygon_smooth_enable")
X(FUDaePassState, State, POLYGON_STIPPLE_ENABLE, "polygon_stipple_enable")
X(FUDaePassState, State, RESCALE_NORMAL_ENABLE, "rescale_normal_enable")
X(FUDaePassState, State, SAMPLE_ALPHA_TO_COVERAGE_ENABLE, "sample_alpha_to_coverage_enable")
X(FUDaePassState, State, SAMPLE_ALPHA_TO_ONE_ENABLE, "sample_alpha_to_one_enable")
X(FUDaePassState, State, SAMPLE_COVERAGE_ENABLE, "sample_coverage_enable")
X(FUDaePassState, State, SCISSOR_TEST_ENABLE, "scissor_test_enable")
X(FUDaePassState, State, STENCIL_TEST_ENABLE, "stencil_test_enable")
