import numpy as np
from netCDF4 import Dataset
with Dataset("pair.nc", "w") as d:
    d.matchup_dataset_uuid = "02b650e8-d476-48fc-881b-71ad0ea8c025"
    for n, k in (("M", 3), ("m1", 2), ("m2", 2)):
        d.createDimension(n, k)
    for n, k in (("X1", 2), ("X2", 4), ("Ur1", 6), ("Ur2", 8), ("Us1", 10), ("Us2", 12)):
        d.createVariable(n, "f4", ("M", "m" + n[-1]))[:] = k + np.arange(6).reshape(3, 2) / 8.
    for n, k in (("time1", 1000.), ("time2", 2000.), ("K", 0.), ("Kr", 1.), ("Ks", 0.)):
        d.createVariable(n, "f8" if n[0] == "t" else "f4", ("M",))[:] = k
    for n in ("uncertainty_type1", "uncertainty_type2"):
        d.createVariable(n, "i4", ("m" + n[-1],))[:] = [1, 2]
    pass
with open("job.nml", "w") as f:
    f.write("""&job
config_job_enable_covariance_common = F
config_job_sensor_columns(1,:) = 2, 1
config_job_sensor_columns_select(1) = T
/
""")
with open("run.nml", "w") as f:
    f.write("&run\nconfig_job = 'job.nml'\n/\n")
