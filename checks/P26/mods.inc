// generated list of the extension modules
MOD(_block_b, "_block_b")
MOD(_block_cd, "_block_cd")
MOD(_block_cf, "_block_cf")
MOD(_block_d, "_block_d")
MOD(_block_f, "_block_f")
MOD(_block_i, "_block_i")
MOD(_cast, "_cast")
MOD(_rand_cd, "_rand_cd")
MOD(_rand_d, "_rand_d")
MOD(_rand_f, "_rand_f")
MOD(library, "library")
MOD(_elementwise_cd, "math._elementwise_cd")
MOD(_elementwise_cf, "math._elementwise_cf")
MOD(_elementwise_d, "math._elementwise_d")
MOD(_elementwise_f, "math._elementwise_f")
MOD(_matvec_cd, "math._matvec_cd")
MOD(_matvec_cf, "math._matvec_cf")
MOD(_matvec_d, "math._matvec_d")
MOD(_matvec_f, "math._matvec_f")
MOD(_reductions_d, "math._reductions_d")
MOD(_reductions_f, "math._reductions_f")
MOD(_chold_d, "math.solvers._chold_d")
MOD(_chold_f, "math.solvers._chold_f")
MOD(_covsol_d, "math.solvers._covsol_d")
MOD(_covsol_f, "math.solvers._covsol_f")
MOD(_llsqsol_d, "math.solvers._llsqsol_d")
MOD(_llsqsol_f, "math.solvers._llsqsol_f")
MOD(_lud_d, "math.solvers._lud_d")
MOD(_lud_f, "math.solvers._lud_f")
MOD(_qrd_d, "math.solvers._qrd_d")
MOD(_qrd_f, "math.solvers._qrd_f")
MOD(_svd_d, "math.solvers._svd_d")
MOD(_svd_f, "math.solvers._svd_f")
MOD(_toepsol_d, "math.solvers._toepsol_d")
MOD(_toepsol_f, "math.solvers._toepsol_f")
MOD(math_types_, "math.types")
MOD(_clip_d, "selgen._clip_d")
MOD(_clip_f, "selgen._clip_f")
MOD(_conv_cd, "signal._conv_cd")
MOD(_conv_cf, "signal._conv_cf")
MOD(_conv_d, "signal._conv_d")
MOD(_conv_f, "signal._conv_f")
MOD(_corr_cd, "signal._corr_cd")
MOD(_corr_cf, "signal._corr_cf")
MOD(_corr_d, "signal._corr_d")
MOD(_corr_f, "signal._corr_f")
MOD(_fft_cd, "signal._fft_cd")
MOD(_fft_cf, "signal._fft_cf")
MOD(_fft_d, "signal._fft_d")
MOD(_fft_f, "signal._fft_f")
MOD(_fftm_cd, "signal._fftm_cd")
MOD(_fftm_cf, "signal._fftm_cf")
MOD(_fftm_d, "signal._fftm_d")
MOD(_fftm_f, "signal._fftm_f")
MOD(_fir_d, "signal._fir_d")
MOD(_fir_f, "signal._fir_f")
MOD(_freqswap_d, "signal._freqswap_d")
MOD(_freqswap_f, "signal._freqswap_f")
MOD(_iir_cd, "signal._iir_cd")
MOD(_iir_d, "signal._iir_d")
MOD(_iir_f, "signal._iir_f")
MOD(_window_d, "signal._window_d")
MOD(_window_f, "signal._window_f")
MOD(signal_types_, "signal.types")
MOD(support, "support")
MOD(types_, "types")
