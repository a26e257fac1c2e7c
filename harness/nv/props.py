"""The checks: per property the trace module, scenario counts and models."""
PROPS = {
    'D01': dict(module='DataTrace', quick=6000, thorough=60000, mc=[('TableLaws', 'TableLaws_D01.cfg')],
                mc_thorough=[('TableLaws', 'TableLaws_D01_thorough.cfg')]),
    'D02': dict(module='DataTrace', quick=6000, thorough=60000, mc=[('TableLaws', 'TableLaws_D02.cfg')],
                mc_thorough=[('TableLaws', 'TableLaws_D02_thorough.cfg')]),
    'D03': dict(module='DataTrace', quick=6000, thorough=60000, mc=[('TableLaws', 'TableLaws_D03.cfg')],
                mc_thorough=[('TableLaws', 'TableLaws_D03_thorough.cfg')]),
    'D04': dict(module='DataTrace', quick=6000, thorough=60000, mc=[('TableLaws', 'TableLaws_D04.cfg')],
                mc_thorough=[('TableLaws', 'TableLaws_D04_thorough.cfg')]),
    'D09': dict(module='DataTrace', quick=6000, thorough=60000),
    'D10': dict(module='DataTrace', quick=6000, thorough=60000),
    'D12': dict(module='DataTrace', quick=6000, thorough=60000),
    'D08': dict(module='DataTrace', quick=6000, thorough=60000, mc=[('TableLaws', 'TableLaws_D08.cfg')],
                mc_thorough=[('TableLaws', 'TableLaws_D08_thorough.cfg')]),
    'D13': dict(module='DataTrace', quick=6000, thorough=60000, mc=[('TableLaws', 'TableLaws_D13.cfg')],
                mc_thorough=[('TableLaws', 'TableLaws_D13_thorough.cfg')]),
    'D18': dict(module='DataTrace', quick=6000, thorough=60000),
    'N01': dict(module='DataTrace', quick=6000, thorough=60000),
    'D11': dict(module='DataTrace', quick=6000, thorough=60000),
    'D14': dict(module='DataTrace', quick=6000, thorough=60000),
    'D19': dict(module='DataTrace', quick=6000, thorough=60000),
    'D06': dict(module='HeapTrace', quick=8000, thorough=90000, stateful=True,
                plans=[('HeapPlan', 'HeapPlan2.cfg'), ('HeapPlan', 'HeapPlan3.cfg')], mc_thorough=[('HeapPlan', 'HeapPlan4.cfg')]),
    'D15': dict(module='CreateTrace', quick=8000, thorough=60000),
    'C01': dict(module='SettingsTrace', quick=18000, thorough=60000, stateful=True,
                plans=[('SettingsPlan', 'SettingsPlan3.cfg')], mc=[('SettingsPlan', 'SettingsAll.cfg')],
                mc_thorough=[('SettingsPlan', 'SettingsAll.cfg')]),
    'R01': dict(module='RandomTrace', quick=16000, thorough=60000, stateful=True,
                plans=[('RandomPlan', 'RandomPlan4.cfg')], mc_thorough=[('RandomPlan', 'RandomPlan6.cfg')]),
    'F01': dict(module='FetchTrace', quick=6000, thorough=40000, stateful=True,
                plans=[('FetchPlan', 'FetchPlan3.cfg')], mc_thorough=[('FetchPlan', 'FetchPlan5.cfg')]),
    'L01': dict(module='LoggerTrace', quick=5000, thorough=20000, stateful=True,
                plans=[('LoggerPlan', 'LoggerPlan3.cfg')], mc_thorough=[('LoggerPlan', 'LoggerPlan6.cfg')]),
    'M01': dict(module='LearnTrace', quick=9000, thorough=60000, stateful=True,
                plans=[('LearnPlan', 'LearnPlan4.cfg')], mc_thorough=[('LearnPlan', 'LearnPlan6.cfg')]),
    'T01': dict(module='TuneTrace', quick=6000, thorough=60000),
    'T02': dict(module='TuneTrace', quick=5000, thorough=40000,
                plans=[('TunePlan', 'TunePlan1.cfg')], mc_thorough=[('TunePlan', 'TunePlan3.cfg')]),
    'M04': dict(module='DataTrace', quick=15000, thorough=60000),
    'M03': dict(module='DataTrace', quick=5000, thorough=50000),
    'M05': dict(module='DataTrace', quick=5000, thorough=50000),
    'M06': dict(module='BackendTrace', quick=4000, thorough=30000, stateful=True),
    'D17': dict(module='DataTrace', quick=8000, thorough=60000),
    'D16': dict(module='DataTrace', quick=8000, thorough=60000),
    'D21': dict(module='DataTrace', quick=6000, thorough=60000),
    'D20': dict(module='DataTrace', quick=6000, thorough=60000),
}
