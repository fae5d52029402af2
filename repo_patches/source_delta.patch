From 91c224ccdb9eeb91ec20ad201e62297bc09c3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:12 +0000
Subject: [PATCH 01/33] fix: replace MMS table contents in one transaction so
 an interrupted set_data keeps the old data

---
 src/nempy/historical_inputs/mms_db.py | 44 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/nempy/historical_inputs/mms_db.py b/src/nempy/historical_inputs/mms_db.py
index 49c8916..483862f 100644
--- a/src/nempy/historical_inputs/mms_db.py
+++ b/src/nempy/historical_inputs/mms_db.py
@@ -531,6 +531,19 @@ class _MMSTable:
             self.con.commit()
             x=1
 
+    def _write_to_staging_table(self, data, if_exists):
+        with self.con:
+            data.to_sql(self.table_name + '_STAGING', con=self.con, if_exists=if_exists, index=False)
+
+    def _swap_in_staging_table(self):
+        """Replace the table with its fully written staging table, in one transaction, so the old contents stay
+        in place until the new contents are complete."""
+        with self.con:
+            cur = self.con.cursor()
+            cur.execute("BEGIN;")
+            cur.execute("DROP TABLE IF EXISTS {table};".format(table=self.table_name))
+            cur.execute("ALTER TABLE {table}_STAGING RENAME TO {table};".format(table=self.table_name))
+
     def _create_sample_table(self, date_time):
         print(self.table_name)
         try:
@@ -617,9 +630,8 @@ class _SingleDataSource(_MMSTable):
         cols_to_add = [col for col in self.table_columns if col not in data.columns]
         data.loc[:, cols_to_add] = np.nan
         data = data.loc[:, self.table_columns]
-        with self.con:
-            data.to_sql(self.table_name, con=self.con, if_exists='replace', index=False)
-            self.con.commit()
+        self._write_to_staging_table(data, if_exists='replace')
+        self._swap_in_staging_table()
 
 
 class _MultiDataSource(_MMSTable):
@@ -787,21 +799,21 @@ class _AllHistDataSource(_MMSTable):
                     if not set(self.table_columns) < set(data.columns):
                         continue
                     data = data.loc[:, self.table_columns]
-                    with self.con:
-                        if cumulative_data.empty:
-                            data.to_sql(self.table_name, con=self.con, if_exists='replace', index=False)
-                            cumulative_data = data.loc[:, self.table_primary_keys]
-                        else:
-                            # Filter data to only include rows unique to the new data and not in data
-                            # previously downloaded.
-                            data = pd.merge(data, cumulative_data, 'outer', on=self.table_primary_keys, indicator=True)
-                            data = data[data['_merge'] == 'left_only'].drop('_merge', axis=1)
-                            # Insert data.
-                            data.to_sql(self.table_name, con=self.con, if_exists='append', index=False)
-                            cumulative_data = pd.concat([cumulative_data, data.loc[:, self.table_primary_keys]])
-                        self.con.commit()
+                    if cumulative_data.empty:
+                        self._write_to_staging_table(data, if_exists='replace')
+                        cumulative_data = data.loc[:, self.table_primary_keys]
+                    else:
+                        # Filter data to only include rows unique to the new data and not in data
+                        # previously downloaded.
+                        data = pd.merge(data, cumulative_data, 'outer', on=self.table_primary_keys, indicator=True)
+                        data = data[data['_merge'] == 'left_only'].drop('_merge', axis=1)
+                        # Insert data.
+                        self._write_to_staging_table(data, if_exists='append')
+                        cumulative_data = pd.concat([cumulative_data, data.loc[:, self.table_primary_keys]])
                 except _MissingData:
                     pass
+        if not cumulative_data.empty:
+            self._swap_in_staging_table()
 
 
 class InputsBySettlementDate(_MultiDataSource):
-- 
2.43.0


From 29af0c495ead10748194ed6cb007c495d696f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:12 +0000
Subject: [PATCH 02/33] fix: do not treat failed downloads as absent months
 when loading the full history of a table

---
 src/nempy/historical_inputs/mms_db.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/mms_db.py b/src/nempy/historical_inputs/mms_db.py
index 483862f..79eb2d1 100644
--- a/src/nempy/historical_inputs/mms_db.py
+++ b/src/nempy/historical_inputs/mms_db.py
@@ -368,7 +368,8 @@ def _download_to_df(url, table_name, year, month):
     # Download the file.
     r = requests.get(url)
     if r.status_code != 200:
-        raise _MissingData(("""Requested data for table: {}, year: {}, month: {} 
+        error = _MissingData if r.status_code == 404 else _DownloadFailed
+        raise error(("""Requested data for table: {}, year: {}, month: {} 
                               not downloaded. Please check your internet connection. Also check
                               http://nemweb.com.au/#mms-data-model, to see if your requested
                               data is uploaded.""").format(table_name, year, month))
@@ -387,6 +388,10 @@ class _MissingData(Exception):
     """Raise for nemweb not returning status 200 for file request."""
 
 
+class _DownloadFailed(_MissingData):
+    """Raise when nemweb did not serve the data for a reason other than the data not being there."""
+
+
 class _MMSTable:
     """Manages Market Management System (MMS) tables stored in an sqlite database.
 
@@ -810,6 +815,8 @@ class _AllHistDataSource(_MMSTable):
                         # Insert data.
                         self._write_to_staging_table(data, if_exists='append')
                         cumulative_data = pd.concat([cumulative_data, data.loc[:, self.table_primary_keys]])
+                except _DownloadFailed:
+                    raise
                 except _MissingData:
                     pass
         if not cumulative_data.empty:
-- 
2.43.0


From 743867793d0b3fd98b3adba323359f93b4d4f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:57 +0000
Subject: [PATCH 03/33] fix: clear the loaded case file when loading another
 interval fails

---
 src/nempy/historical_inputs/xml_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..f8bd419 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -84,6 +84,7 @@ class XMLCacheManager:
             If the data for an interval is not in the cache and cannot be downloaded from NEMWeb.
         """
         self.interval = interval
+        self.xml = None  # If loading fails, data from a previously loaded interval is not left in place.
         if not self.interval_inputs_in_cache():
             self._download_xml_from_nemweb()
             if not self.interval_inputs_in_cache():
-- 
2.43.0


From aa5db6c161f115cdcaa9afaf929ceaf8f4d9f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:57 +0000
Subject: [PATCH 04/33] fix: only move completely extracted case files into the
 cache

---
 src/nempy/historical_inputs/xml_cache.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index f8bd419..84907b3 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -4,6 +4,7 @@ import requests
 import zipfile
 import io
 import os
+import tempfile
 import numpy as np
 from pathlib import Path
 from datetime import datetime, timedelta, time
@@ -166,12 +167,19 @@ class XMLCacheManager:
         try:
             r = requests.get(url)
             z = zipfile.ZipFile(io.BytesIO(r.content))
-            z.extractall(self.cache_folder)
+            self._extract_to_cache(z)
         except zipfile.BadZipFile:
             sleep(200)
             r = requests.get(url)
             z = zipfile.ZipFile(io.BytesIO(r.content))
-            z.extractall(self.cache_folder)
+            self._extract_to_cache(z)
+
+    def _extract_to_cache(self, z):
+        """Files are moved into the cache once complete, so an interrupted extraction leaves no partial files there."""
+        with tempfile.TemporaryDirectory(dir=self.cache_folder, prefix='partial_') as folder:
+            z.extractall(folder)
+            for name in sorted(os.listdir(folder)):
+                os.replace(Path(folder) / name, Path(self.cache_folder) / name)
 
     def _get_market_year_month_day(self):
         date_time = self._get_interval_datetime_object()
-- 
2.43.0


From 37a2c6f3e679ab5982620bd289945544c12b877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:57 +0000
Subject: [PATCH 05/33] fix: raise MissingDataError when a case file cannot be
 downloaded

---
 src/nempy/historical_inputs/xml_cache.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 84907b3..b0ebe27 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -2,6 +2,7 @@ import xmltodict
 import pandas as pd
 import requests
 import zipfile
+import zlib
 import io
 import os
 import tempfile
@@ -89,9 +90,7 @@ class XMLCacheManager:
         if not self.interval_inputs_in_cache():
             self._download_xml_from_nemweb()
             if not self.interval_inputs_in_cache():
-                raise MissingDataError(
-                    'File not downloaded, check internet connection and that NEMWeb contains data for interval {}.'.format(
-                        self.interval))
+                raise MissingDataError(self._missing_data_message())
         with open(self.get_file_path()) as file:
             read = file.read()
             self.xml = xmltodict.parse(read)
@@ -164,15 +163,25 @@ class XMLCacheManager:
         year, month, day = self._get_market_year_month_day_as_str()
         base_url = "https://www.nemweb.com.au/Data_Archive/Wholesale_Electricity/NEMDE/{year}/NEMDE_{year}_{month}/NEMDE_Market_Data/NEMDE_Files/NemSpdOutputs_{year}{month}{day}_loaded.zip"
         url = base_url.format(year=year, month=month, day=day)
+        bad_file_errors = (zipfile.BadZipFile, zlib.error, EOFError)
         try:
             r = requests.get(url)
             z = zipfile.ZipFile(io.BytesIO(r.content))
             self._extract_to_cache(z)
-        except zipfile.BadZipFile:
+        except bad_file_errors:
             sleep(200)
-            r = requests.get(url)
-            z = zipfile.ZipFile(io.BytesIO(r.content))
-            self._extract_to_cache(z)
+            try:
+                r = requests.get(url)
+                z = zipfile.ZipFile(io.BytesIO(r.content))
+                self._extract_to_cache(z)
+            except (requests.RequestException, *bad_file_errors) as e:
+                raise MissingDataError(self._missing_data_message()) from e
+        except requests.RequestException as e:
+            raise MissingDataError(self._missing_data_message()) from e
+
+    def _missing_data_message(self):
+        return 'File not downloaded, check internet connection and that NEMWeb contains data for interval {}.'.format(
+            self.interval)
 
     def _extract_to_cache(self, z):
         """Files are moved into the cache once complete, so an interrupted extraction leaves no partial files there."""
-- 
2.43.0


From d4e64c7c3c908fd6576c0cbbc40d1d67a5dc999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:55 +0000
Subject: [PATCH 06/33] fix: populate_by_day covers all intervals of the end
 date and of partly extracted days

---
 src/nempy/historical_inputs/xml_cache.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index b0ebe27..cabc7cc 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -5,6 +5,7 @@ import zipfile
 import zlib
 import io
 import os
+import calendar
 import tempfile
 import numpy as np
 from pathlib import Path
@@ -38,21 +39,18 @@ class XMLCacheManager:
     def populate(self, start_year, start_month, end_year, end_month, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end month."""
 
-        if end_month == 12:
-            end_month = 1
-            end_year += 1
-        else:
-            end_month += 1
+        end_day = calendar.monthrange(end_year, end_month)[1]
 
         self.populate_by_day(start_year=start_year, start_month=start_month, start_day=1,
-                             end_year=end_year, end_month=end_month, end_day=1, verbose=verbose)
+                             end_year=end_year, end_month=end_month, end_day=end_day, verbose=verbose)
 
     def populate_by_day(self, start_year, start_month, end_year, end_month, start_day, end_day, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end date.
         """
 
         start = datetime(year=start_year, month=start_month, day=start_day) - timedelta(days=1)
-        end = datetime(year=end_year, month=end_month, day=end_day)
+        # The market day of a date starts at 04:05 and its file also contains 00:00 of the next date.
+        end = datetime(year=end_year, month=end_month, day=end_day) + timedelta(days=1)
         download_date = start
         while download_date <= end:
             if verbose:
@@ -60,9 +58,20 @@ class XMLCacheManager:
                                                                                         download_date.month,
                                                                                         download_date.day))
             download_date_str = download_date.isoformat().replace('T', ' ').replace('-', '/')
+            self.interval, self.xml = download_date_str, None
+            if not self._market_day_in_cache():
+                self._download_xml_from_nemweb()
             self.load_interval(download_date_str)
             download_date += timedelta(days=1)
 
+    def _market_day_in_cache(self):
+        """Check the cache contains all the intervals of the current interval's market day."""
+        year, month, day = self._get_market_year_month_day_as_str()
+        base_name = "NEMSPDOutputs_{}{}{}{}00".format(year, month, day, '{}')
+        files = set(os.listdir(self.cache_folder))
+        return all(name + '.loaded' in files or name + '_OCD.loaded' in files
+                   for name in [base_name.format(str(number).zfill(3)) for number in range(1, 289)])
+
     def load_interval(self, interval):
         """Load the data for particular 5 min dispatch interval into memory.
 
-- 
2.43.0


From 0bbf5c2dfefe2ce13bfc7e858e4f98a28b5437ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 07/33] fix: report constraints that depend on a value through
 chains of generic equations, each once

---
 src/nempy/historical_inputs/rhs_calculator.py | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..a9eab28 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -381,20 +381,23 @@ class RHSCalc:
         -------
         list[str] a list of strings detailing the constraits' whose RHS equations depend on the specified value.
         """
+        def depends(equation, dependent_generic_equations):
+            return any((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                       (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X') for term in equation)
+
+        # Generic equations can refer to other generic equations, so repeat until no more dependent ones are found.
         dependent_generic_equations = []
-        for equation_id, equation in self.generic_equations.items():
-            for term in equation:
-                if (term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                        dependent_generic_equations):
+        found_more = True
+        while found_more:
+            found_more = False
+            for equation_id, equation in self.generic_equations.items():
+                if (equation_id not in dependent_generic_equations and
+                        depends(equation, dependent_generic_equations)):
                     dependent_generic_equations.append(equation_id)
+                    found_more = True
 
-        dependent_rhs_equations = []
-        for equation_id, equation in self.rhs_constraint_equations.items():
-            for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
-                    dependent_rhs_equations.append(equation_id)
+        dependent_rhs_equations = [equation_id for equation_id, equation in self.rhs_constraint_equations.items()
+                                   if depends(equation, dependent_generic_equations)]
 
         return dependent_rhs_equations
 
-- 
2.43.0


From e13dc6e5c75ea33083194bdcbc6b23668b5fe680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:18 +0000
Subject: [PATCH 08/33] fix: work on copies of the tables users hand to a
 market instead of modifying and keeping them

---
 src/nempy/markets.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..0b77394 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1,3 +1,5 @@
+import functools
+
 import numpy as np
 import pandas as pd
 
@@ -9,6 +11,20 @@ from nempy.spot_market_backend import elastic_constraints, fcas_constraints, int
 pd.set_option('display.width', None)
 
 
+def _use_copies_of_tables(method):
+    """Hand copies of the tables given by the user to the method, so neither side sees later changes by the other."""
+    def copy_if_table(value):
+        return value.copy() if isinstance(value, pd.DataFrame) else value
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        args = [copy_if_table(value) for value in args]
+        kwargs = {name: copy_if_table(value) for name, value in kwargs.items()}
+        return method(self, *args, **kwargs)
+
+    return wrapper
+
+
 # noinspection PyProtectedMember
 class SpotMarket:
     """Class for constructing and dispatching the spot market on an interval basis.
@@ -89,6 +105,7 @@ class SpotMarket:
         ColumnValues
             If there are inf, null or negative values in the 'loss_factor' column."""
 
+    @_use_copies_of_tables
     def __init__(self, market_regions, unit_info, dispatch_interval=5):
         self.dispatch_interval = dispatch_interval
         self._unit_info = None
@@ -107,7 +124,7 @@ class SpotMarket:
         self._next_constraint_id = 0
         self.validate_inputs = True
         self.check = True
-        self._market_regions = market_regions
+        self._market_regions = list(market_regions)
         self._allowed_dispatch_types = ['generator', 'load']
         self._allowed_services = ['energy', 'raise_reg', 'lower_reg', 'raise_5min', 'lower_5min', 'raise_60s',
                                   'lower_60s', 'raise_6s', 'lower_6s', 'raise_1s', 'lower_1s']
@@ -147,6 +164,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
         schema.validate(unit_info)
 
+    @_use_copies_of_tables
     def set_unit_volume_bids(self, volume_bids):
         """Creates the decision variables corresponding to unit bids.
 
@@ -291,6 +309,7 @@ class SpotMarket:
             raise ModelBuildError(f"Invalid inputs for {input_name} a generator and load input was not provided for each "
                                   f"bidirectional unit.")
 
+    @_use_copies_of_tables
     def set_unit_price_bids(self, price_bids):
         """Creates the objective function costs corresponding to energy bids.
 
@@ -421,6 +440,7 @@ class SpotMarket:
         if 'bids' not in self._decision_variables:
             raise ModelBuildError('Price bids cannot be set before setting volume bids.')
 
+    @_use_copies_of_tables
     def set_unit_bid_capacity_constraints(self, unit_limits, violation_cost=None):
         """Creates constraints that limit unit output based on their bid in max capacity. If a unit bids in zero
         volume then a constraint is not created.
@@ -539,6 +559,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
         schema.validate(unit_limits)
 
+    @_use_copies_of_tables
     def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
         """Creates constraints that limit unit output based on their forecast output.
 
@@ -648,6 +669,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
         schema.validate(unit_limits)
 
+    @_use_copies_of_tables
     def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
                                        run_type='no_fast_start_units', violation_cost=None):
         """Creates constraints on unit output based on ramp rates.
@@ -920,6 +942,7 @@ class SpotMarket:
                                               not_negative=True))
         schema.validate(fast_start_profiles)
 
+    @_use_copies_of_tables
     def set_fast_start_constraints(self, fast_start_profiles, violation_cost=None):
         """Create the constraints on fast start units dispatch, :download:`see AEMO doc <../../docs/pdfs/Fast_Start_Unit_Inflexibility_Profile_Model_October_2014.pdf>`
 
@@ -1061,6 +1084,7 @@ class SpotMarket:
                                           not_negative=True))
         schema.validate(fast_start_profiles)
 
+    @_use_copies_of_tables
     def set_demand_constraints(self, demand, violation_cost=None):
         """Creates constraints that force supply to equal to demand.
 
@@ -1150,6 +1174,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='demand', data_type=np.float64, must_be_real_number=True))
         schema.validate(demand)
 
+    @_use_copies_of_tables
     def set_fcas_requirements_constraints(self, fcas_requirements, violation_cost=None):
         """Creates constraints that force FCAS supply to equal requirements.
 
@@ -1259,6 +1284,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(fcas_requirements)
 
+    @_use_copies_of_tables
     def set_fcas_max_availability(self, fcas_max_availability, violation_cost=None):
         """Creates constraints to ensure fcas dispatch is limited to the availability specified in the FCAS trapezium.
 
@@ -1358,6 +1384,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(fcas_max_availability)
 
+    @_use_copies_of_tables
     def set_joint_ramping_constraints_reg(self, scada_ramp_rates, fast_start_profiles=None,
                                           run_type='no_fast_start_units', violation_cost=None):
         """Create constraints that ensure the provision of energy and fcas raise are within unit ramping capabilities.
@@ -1608,6 +1635,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='scada_ramp_down_rate', data_type=np.float64))
         schema.validate(ramp_details)
 
+    @_use_copies_of_tables
     def set_joint_capacity_constraints(self, contingency_trapeziums, violation_cost=None):
         """Creates constraints to ensure there is adequate capacity for contingency, regulation and energy dispatch.
 
@@ -1744,6 +1772,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(contingency_trapeziums)
 
+    @_use_copies_of_tables
     def set_energy_and_regulation_capacity_constraints(self, regulation_trapeziums, violation_cost=None):
         """Creates constraints to ensure there is adequate capacity for regulation and energy dispatch targets.
 
@@ -1883,6 +1912,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(contingency_trapeziums)
 
+    @_use_copies_of_tables
     def set_interconnectors(self, interconnector_directions_and_limits):
         """Create lossless links between specified regions.
 
@@ -2016,6 +2046,7 @@ class SpotMarket:
                                           not_negative=True))
         schema.validate(interconnector_directions_and_limits)
 
+    @_use_copies_of_tables
     def set_interconnector_losses(self, loss_functions, interpolation_break_points):
         """Creates linearised loss functions for interconnectors.
 
@@ -2283,6 +2314,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='break_point', data_type=np.float64, must_be_real_number=True))
         schema.validate(interpolation_break_points)
 
+    @_use_copies_of_tables
     def set_generic_constraints(self, generic_constraint_parameters, violation_cost=None):
         """Creates a set of generic constraints, adding the constraint type, rhs.
 
@@ -2370,6 +2402,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='rhs', data_type=np.float64, must_be_real_number=True))
         schema.validate(generic_constraint_parameters)
 
+    @_use_copies_of_tables
     def link_units_to_generic_constraints(self, unit_coefficients):
         """Set the lhs coefficients of generic constraints on unit basis.
 
@@ -2451,6 +2484,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='coefficient', data_type=np.float64, must_be_real_number=True))
         schema.validate(unit_coefficients)
 
+    @_use_copies_of_tables
     def link_regions_to_generic_constraints(self, region_coefficients):
         """Set the lhs coefficients of generic constraints on region basis.
 
@@ -2537,6 +2571,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='coefficient', data_type=np.float64, must_be_real_number=True))
         schema.validate(region_coefficients)
 
+    @_use_copies_of_tables
     def link_interconnectors_to_generic_constraints(self, interconnector_coefficients):
         """Set the lhs coefficients of generic constraints on an interconnector basis.
 
@@ -2613,6 +2648,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='coefficient', data_type=np.float64, must_be_real_number=True))
         schema.validate(interconnector_coefficients)
 
+    @_use_copies_of_tables
     def make_constraints_elastic(self, constraints_key, violation_cost):
         """Make a set of constraints elastic, so they can be violated at a predefined cost.
 
@@ -2754,6 +2790,7 @@ class SpotMarket:
         else:
             return 0.0
 
+    @_use_copies_of_tables
     def set_tie_break_constraints(self, cost):
         """Creates a cost that attempts to balance the energy dispatch of equally priced bids within a region.
 
-- 
2.43.0


From 76e616cd692766ea752e1afd2dbb2e25f3376d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:19 +0000
Subject: [PATCH 09/33] fix: accept ramp rates, joint ramping and tie breaks
 that lead to no constraint of some kind

---
 src/nempy/markets.py                          | 43 +++++++++++--------
 .../spot_market_backend/unit_constraints.py   |  4 +-
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 0b77394..6fc38ea 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -868,17 +868,18 @@ class SpotMarket:
             ramp_details, run_type, fast_start_profiles, self.dispatch_interval
         )
 
-        rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        if not ramp_details.empty:
+            rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
+                                                                  self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
-        rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
+                                                                  self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not bidirectional_unit_ramp_details.empty:
 
@@ -895,9 +896,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('ramp_up', violation_cost)
-            self.make_constraints_elastic('ramp_down', violation_cost)
-
+            if 'ramp_up' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('ramp_up', violation_cost)
+            if 'ramp_down' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('ramp_down', violation_cost)
             if 'bidirectional_ramp_up' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('bidirectional_ramp_up', violation_cost)
             if 'bidirectional_ramp_down' in self._constraint_to_variable_map['unit_level'].keys():
@@ -1620,8 +1622,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
+            if 'joint_ramping_raise_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
+            if 'joint_ramping_lower_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
             if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
             if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
@@ -2884,10 +2888,11 @@ class SpotMarket:
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
 
-        self._lhs_coefficients['tie_break'] = lhs
-        self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
-        self.make_constraints_elastic('tie_break', violation_cost=cost)
+        if not rhs.empty:
+            self._lhs_coefficients['tie_break'] = lhs
+            self._constraints_rhs_and_type['tie_break'] = rhs
+            self._next_constraint_id = rhs['constraint_id'].max() + 1
+            self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
                  allow_over_constrained_dispatch_re_run=False):
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..bc23ed3 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -572,8 +572,8 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
         return name
 
     constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
+        [make_id(*bids) for bids in zip(constraints['unit_x'], constraints['capacity_band_x'],
+                                        constraints['unit_y'], constraints['capacity_band_y'])]
 
     constraints = constraints.drop_duplicates('name')
 
-- 
2.43.0


From 3bf7f3ee008269d87c9a3c41b73ad71c09282e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:35 +0000
Subject: [PATCH 10/33] fix: remove the previous constraints and deficit
 variables when market inputs are replaced

---
 src/nempy/markets.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 6fc38ea..c294c82 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -544,6 +544,7 @@ class SpotMarket:
             self._next_constraint_id,
             self._bidirectional_units
         )
+        self._remove_constraints('unit_bid_capacity')
         self._constraints_rhs_and_type['unit_bid_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['unit_bid_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -656,6 +657,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
+        self._remove_constraints('uigf_capacity')
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -868,6 +870,8 @@ class SpotMarket:
             ramp_details, run_type, fast_start_profiles, self.dispatch_interval
         )
 
+        self._remove_constraints('ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down')
+
         if not ramp_details.empty:
             rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
                                                                   self.dispatch_interval)
@@ -1055,6 +1059,7 @@ class SpotMarket:
 
         rhs_and_type, variable_map = unit_constraints.create_fast_start_profile_constraints(
             fast_start_profiles, self._next_constraint_id)
+        self._remove_constraints('fast_start')
         if not rhs_and_type.empty:
             self._constraints_rhs_and_type['fast_start'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['fast_start'] = variable_map
@@ -1062,6 +1067,21 @@ class SpotMarket:
             if violation_cost is not None:
                 self.make_constraints_elastic('fast_start', violation_cost)
 
+    def _remove_constraints(self, *constraints_keys):
+        """Remove constraints set earlier, and what makes them elastic, so that they can be replaced."""
+        for constraints_key in constraints_keys:
+            self._constraints_rhs_and_type.pop(constraints_key, None)
+            self._market_constraints_rhs_and_type.pop(constraints_key, None)
+            self._constraint_to_variable_map['unit_level'].pop(constraints_key, None)
+            self._constraint_to_variable_map['regional'].pop(constraints_key, None)
+            self._lhs_coefficients.pop(constraints_key, None)
+            self._remove_deficit_variables(constraints_key)
+
+    def _remove_deficit_variables(self, constraints_key):
+        self._decision_variables.pop(constraints_key + '_deficit', None)
+        self._objective_function_components.pop(constraints_key + '_deficit', None)
+        self._lhs_coefficients.pop(constraints_key + '_deficit', None)
+
     def remove_fast_start_constraints(self):
         if 'fast_start' in self._constraints_rhs_and_type:
             del self._constraints_rhs_and_type['fast_start']
@@ -1163,6 +1183,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_demand(demand)
         rhs_and_type, variable_map = market_constraints.energy(demand, self._next_constraint_id)
+        self._remove_constraints('demand')
         self._market_constraints_rhs_and_type['demand'] = rhs_and_type
         self._constraint_to_variable_map['regional']['demand'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1269,6 +1290,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
+        self._remove_constraints('fcas')
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1369,6 +1391,7 @@ class SpotMarket:
             self._validate_fcas_max_availability(fcas_max_availability)
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
                                                                             self._next_constraint_id)
+        self._remove_constraints('fcas_max_availability')
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1570,6 +1593,9 @@ class SpotMarket:
         ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg[
             ~ramp_up_rates_for_raise_reg['unit'].isin(self._bidirectional_units)]
 
+        self._remove_constraints('joint_ramping_raise_reg', 'joint_ramping_lower_reg',
+                                 'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu')
+
         if not ramp_up_rates_for_raise_reg.empty:
             rhs_and_type, variable_map = \
                 fcas_constraints.joint_ramping_constraints_raise_reg(
@@ -1754,6 +1780,7 @@ class SpotMarket:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
             contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
+        self._remove_constraints('joint_capacity')
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1894,6 +1921,7 @@ class SpotMarket:
                 regulation_trapeziums, self._next_constraint_id
 
             )
+        self._remove_constraints('energy_and_regulation_capacity')
         self._constraints_rhs_and_type['energy_and_regulation_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['energy_and_regulation_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -2392,6 +2420,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_generic_constraint_parameters(generic_constraint_parameters)
         type_and_rhs = hf.save_index(generic_constraint_parameters, 'constraint_id', self._next_constraint_id)
+        self._remove_constraints('generic')
         self._constraints_rhs_and_type['generic'] = type_and_rhs.loc[:, ['set', 'constraint_id', 'type', 'rhs']]
         self._next_constraint_id = type_and_rhs['constraint_id'].max() + 1
 
@@ -2772,6 +2801,7 @@ class SpotMarket:
         else:
             ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
+        self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
             self._decision_variables[constraints_key + '_deficit'] = \
@@ -2888,6 +2918,7 @@ class SpotMarket:
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
 
+        self._remove_constraints('tie_break')
         if not rhs.empty:
             self._lhs_coefficients['tie_break'] = lhs
             self._constraints_rhs_and_type['tie_break'] = rhs
-- 
2.43.0


From 7ac6052a9770e0551a44c83250b54a729d9c38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:06 +0000
Subject: [PATCH 11/33] fix: raise an error when the solve for prices fails
 instead of reporting its leftovers

---
 src/nempy/markets.py                              | 4 ++--
 src/nempy/spot_market_backend/solver_interface.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index c294c82..13d13aa 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3146,7 +3146,7 @@ class SpotMarket:
         # to be accessed and used to price constraints.
         if 'interconnector_losses' in self._decision_variables:
             si = self._get_linear_model(si)
-        si.linear_mip_model.optimize()
+        si.optimize_linear_model()
 
         for var_group in self._decision_variables:
             self._decision_variables[var_group]['value_lin'] = \
@@ -3204,7 +3204,7 @@ class SpotMarket:
                 variables_and_cons['adjuster'] = (variables_and_cons['value'] + 0.01) * \
                                                  variables_and_cons['coefficient'] * -1
                 variables_and_cons.apply(lambda x: si.update_rhs(x['constraint_id'], x['adjuster']), axis=1)
-                si.linear_mip_model.optimize()
+                si.optimize_linear_model()
 
                 # If there are market constraints then calculate their associated prices.
                 if self._market_constraints_rhs_and_type:
diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 091c2d4..62fd772 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -295,6 +295,12 @@ class InterfaceToSolver:
             print('Couldn\'t find an optimal solution, but removing con {} fixed INFEASIBLITY'.format(con_index))
             raise ValueError('Linear program infeasible')
 
+    def optimize_linear_model(self):
+        """Optimize the linear model used for pricing constraints, see price_constraints."""
+        status = self.linear_mip_model.optimize()
+        if status != OptimizationStatus.OPTIMAL:
+            raise ValueError('Linear program for pricing constraints could not be solved, status {}'.format(status))
+
     def get_optimal_values_of_decision_variables(self, variable_definitions):
         """Get the optimal values for each decision variable.
 
-- 
2.43.0


From 7aa87c50d4c38575e2dc45b763dd2f3e6c6cd767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 12/33] fix: a failing market operation leaves the market as it
 was, and invalid violation costs are rejected

---
 src/nempy/markets.py | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 13d13aa..5af99aa 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -11,6 +11,24 @@ from nempy.spot_market_backend import elastic_constraints, fcas_constraints, int
 pd.set_option('display.width', None)
 
 
+def _all_or_nothing(method):
+    """Undo the changes a method has made to the market if it fails part of the way through."""
+    def copy_dicts(value):
+        return {key: copy_dicts(item) for key, item in value.items()} if isinstance(value, dict) else value
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = copy_dicts(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 def _use_copies_of_tables(method):
     """Hand copies of the tables given by the user to the method, so neither side sees later changes by the other."""
     def copy_if_table(value):
@@ -164,6 +182,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
         schema.validate(unit_info)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_unit_volume_bids(self, volume_bids):
         """Creates the decision variables corresponding to unit bids.
@@ -309,6 +328,7 @@ class SpotMarket:
             raise ModelBuildError(f"Invalid inputs for {input_name} a generator and load input was not provided for each "
                                   f"bidirectional unit.")
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_unit_price_bids(self, price_bids):
         """Creates the objective function costs corresponding to energy bids.
@@ -440,6 +460,7 @@ class SpotMarket:
         if 'bids' not in self._decision_variables:
             raise ModelBuildError('Price bids cannot be set before setting volume bids.')
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_unit_bid_capacity_constraints(self, unit_limits, violation_cost=None):
         """Creates constraints that limit unit output based on their bid in max capacity. If a unit bids in zero
@@ -560,6 +581,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
         schema.validate(unit_limits)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
         """Creates constraints that limit unit output based on their forecast output.
@@ -671,6 +693,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
         schema.validate(unit_limits)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
                                        run_type='no_fast_start_units', violation_cost=None):
@@ -948,6 +971,7 @@ class SpotMarket:
                                               not_negative=True))
         schema.validate(fast_start_profiles)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_fast_start_constraints(self, fast_start_profiles, violation_cost=None):
         """Create the constraints on fast start units dispatch, :download:`see AEMO doc <../../docs/pdfs/Fast_Start_Unit_Inflexibility_Profile_Model_October_2014.pdf>`
@@ -1106,6 +1130,7 @@ class SpotMarket:
                                           not_negative=True))
         schema.validate(fast_start_profiles)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_demand_constraints(self, demand, violation_cost=None):
         """Creates constraints that force supply to equal to demand.
@@ -1197,6 +1222,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='demand', data_type=np.float64, must_be_real_number=True))
         schema.validate(demand)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_fcas_requirements_constraints(self, fcas_requirements, violation_cost=None):
         """Creates constraints that force FCAS supply to equal requirements.
@@ -1308,6 +1334,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(fcas_requirements)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_fcas_max_availability(self, fcas_max_availability, violation_cost=None):
         """Creates constraints to ensure fcas dispatch is limited to the availability specified in the FCAS trapezium.
@@ -1409,6 +1436,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(fcas_max_availability)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_joint_ramping_constraints_reg(self, scada_ramp_rates, fast_start_profiles=None,
                                           run_type='no_fast_start_units', violation_cost=None):
@@ -1665,6 +1693,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='scada_ramp_down_rate', data_type=np.float64))
         schema.validate(ramp_details)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_joint_capacity_constraints(self, contingency_trapeziums, violation_cost=None):
         """Creates constraints to ensure there is adequate capacity for contingency, regulation and energy dispatch.
@@ -1803,6 +1832,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(contingency_trapeziums)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_energy_and_regulation_capacity_constraints(self, regulation_trapeziums, violation_cost=None):
         """Creates constraints to ensure there is adequate capacity for regulation and energy dispatch targets.
@@ -1944,6 +1974,7 @@ class SpotMarket:
                           optional=True)
         schema.validate(contingency_trapeziums)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_interconnectors(self, interconnector_directions_and_limits):
         """Create lossless links between specified regions.
@@ -2078,6 +2109,7 @@ class SpotMarket:
                                           not_negative=True))
         schema.validate(interconnector_directions_and_limits)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_interconnector_losses(self, loss_functions, interpolation_break_points):
         """Creates linearised loss functions for interconnectors.
@@ -2265,7 +2297,7 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
@@ -2346,6 +2378,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='break_point', data_type=np.float64, must_be_real_number=True))
         schema.validate(interpolation_break_points)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_generic_constraints(self, generic_constraint_parameters, violation_cost=None):
         """Creates a set of generic constraints, adding the constraint type, rhs.
@@ -2435,6 +2468,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='rhs', data_type=np.float64, must_be_real_number=True))
         schema.validate(generic_constraint_parameters)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def link_units_to_generic_constraints(self, unit_coefficients):
         """Set the lhs coefficients of generic constraints on unit basis.
@@ -2517,6 +2551,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='coefficient', data_type=np.float64, must_be_real_number=True))
         schema.validate(unit_coefficients)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def link_regions_to_generic_constraints(self, region_coefficients):
         """Set the lhs coefficients of generic constraints on region basis.
@@ -2604,6 +2639,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='coefficient', data_type=np.float64, must_be_real_number=True))
         schema.validate(region_coefficients)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def link_interconnectors_to_generic_constraints(self, interconnector_coefficients):
         """Set the lhs coefficients of generic constraints on an interconnector basis.
@@ -2681,6 +2717,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='coefficient', data_type=np.float64, must_be_real_number=True))
         schema.validate(interconnector_coefficients)
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def make_constraints_elastic(self, constraints_key, violation_cost):
         """Make a set of constraints elastic, so they can be violated at a predefined cost.
@@ -2799,7 +2836,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
@@ -2824,6 +2861,7 @@ class SpotMarket:
         else:
             return 0.0
 
+    @_all_or_nothing
     @_use_copies_of_tables
     def set_tie_break_constraints(self, cost):
         """Creates a cost that attempts to balance the energy dispatch of equally priced bids within a region.
-- 
2.43.0


From f88ff78669594d972c5aea7684d2b449f4995c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:03 +0000
Subject: [PATCH 13/33] fix: region summaries cover all regions and balance
 when interconnectors have loss factors

---
 src/nempy/markets.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 5af99aa..3a24d23 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3653,11 +3653,11 @@ class SpotMarket:
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
             dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
-        return dispatch_summary
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+        return dispatch_summary.fillna(0.0)
 
     def _get_net_unit_dispatch_by_region(self):
 
@@ -3768,11 +3768,9 @@ class SpotMarket:
         flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])
 
         def calc_losses(direction, flow, loss_factor):
-            if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
-                losses = flow * (1 - loss_factor)
-            elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
-                losses = abs(flow) - (abs(flow) / loss_factor)
-            return losses
+            # The demand constraints scale the flow into a region and the flow out of a region by their loss factors.
+            inflow = flow if direction == 'to_region' else -flow
+            return inflow * (1 - loss_factor)
 
         flows_and_losses['transmission_losses'] = \
             flows_and_losses.apply(lambda x: calc_losses(x['direction'], x['flow'], x['loss_factor']), axis=1)
-- 
2.43.0


From ee76b967c09e2f4a0ebe9b5fa00ef2c8f422f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:49 +0000
Subject: [PATCH 14/33] fix: keep the break points around the flow when
 linearising interconnector losses for prices

---
 src/nempy/markets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 3a24d23..6df127a 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3275,8 +3275,11 @@ class SpotMarket:
 
         def not_closest_three(df):
             df = df.sort_values('distance')
+            # The flow must stay reachable, so also keep the closest break points on either side of it.
+            next_above = df.index[df['break_point'] >= df['value']][:1]
+            next_below = df.index[df['break_point'] <= df['value']][:1]
             df = df.iloc[3:, :]
-            return df
+            return df[~df.index.isin(next_above.union(next_below))]
 
         vars_to_remove = vars.groupby(['interconnector', 'link'], as_index=False).apply(not_closest_three, include_groups=False)
         si.disable_variables(vars_to_remove.loc[:, ['variable_id']])
-- 
2.43.0


From fbc682f6b189c229c4ff025113e2466fc09980f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:30 +0000
Subject: [PATCH 15/33] fix: count lower regulation on the load side of
 bidirectional units against the lower slope of contingency trapeziums

---
 src/nempy/spot_market_backend/fcas_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..2bd17fa 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -298,7 +298,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
+    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = -1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From 361a01d2cc5397a349c72cc5da8448ad347ac86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 16/33] fix: joint ramping constraints of bidirectional units
 cover their net energy when only one side bids regulation

---
 .../spot_market_backend/fcas_constraints.py   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 2bd17fa..adf37e4 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -16,9 +16,7 @@ def joint_ramping_constraints_raise_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = 1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
-    variable_mapping_energy['service'] = 'energy'
-    variable_mapping_energy['coefficient'] = 1.0
+    variable_mapping_energy = energy_mapping_of_both_sides(rhs_and_type)
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
     return rhs_and_type, variable_mapping
 
@@ -36,13 +34,22 @@ def joint_ramping_constraints_lower_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = -1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
-    variable_mapping_energy['service'] = 'energy'
-    variable_mapping_energy['coefficient'] = 1.0
+    variable_mapping_energy = energy_mapping_of_both_sides(rhs_and_type)
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
     return rhs_and_type, variable_mapping
 
 
+def energy_mapping_of_both_sides(rhs_and_type):
+    # The net energy of a bidirectional unit counts, whichever side of the unit regulation has been bid for.
+    generator_side = rhs_and_type.loc[:, ['constraint_id', 'unit']]
+    generator_side['service'] = 'energy'
+    generator_side['dispatch_type'] = 'generator'
+    generator_side['coefficient'] = 1.0
+    load_side = generator_side.copy()
+    load_side['dispatch_type'] = 'load'
+    return pd.concat([generator_side, load_side])
+
+
 def joint_ramping_constraints_raise_reg(unit_limits, dispatch_interval, next_constraint_id):
 
     constraint_settings = {'generator': {'type': '<=',
-- 
2.43.0


From 4e0c5a4e0da0d554a8ce26a20515c421cd922799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:54 +0000
Subject: [PATCH 17/33] fix: report the objective value of the reported
 dispatch rather than the one kept by the solver

---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 6df127a..664e017 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3253,7 +3253,7 @@ class SpotMarket:
                         self._market_constraints_rhs_and_type[constraint_group]['price'] = \
                             self._market_constraints_rhs_and_type[constraint_group]['constraint_id'].map(prices)
 
-        self.objective_value = si.mip_model.objective_value
+        self.objective_value = si.mip_model.objective.x
 
     def _get_linear_model(self, si):
         self._remove_unused_interpolation_weights(si)
-- 
2.43.0


From e9acf1a4f20066a3c65fceffc9f6d9adfe56d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:02 +0000
Subject: [PATCH 18/33] fix: give every pair of tied bids its own tie break
 constraint

---
 src/nempy/spot_market_backend/unit_constraints.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index bc23ed3..bc397ac 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -566,14 +566,11 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     constraints = pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])
     constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
 
-    def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
+    def make_id(variable_id_x, variable_id_y):
+        return min(variable_id_x, variable_id_y), max(variable_id_x, variable_id_y)
 
     constraints['name'] = \
-        [make_id(*bids) for bids in zip(constraints['unit_x'], constraints['capacity_band_x'],
-                                        constraints['unit_y'], constraints['capacity_band_y'])]
+        [make_id(*bids) for bids in zip(constraints['variable_id_x'], constraints['variable_id_y'])]
 
     constraints = constraints.drop_duplicates('name')
 
-- 
2.43.0


From 3a3253d07123c5fd8ef9fc42625ef0948bafb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 19/33] fix: set the MIP gap on the model, the value set on the
 solver is overwritten by optimize

---
 src/nempy/spot_market_backend/solver_interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 62fd772..91dc1dc 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -21,13 +21,13 @@ class InterfaceToSolver:
             raise ValueError("Solver '{}' not recognised.")
 
         self.mip_model.verbose = 0
-        self.mip_model.solver.set_mip_gap_abs(1e-10)
-        self.mip_model.solver.set_mip_gap(1e-20)
+        self.mip_model.max_mip_gap_abs = 1e-10
+        self.mip_model.max_mip_gap = 1e-20
         self.mip_model.lp_method = LP_Method.DUAL
 
         self.linear_mip_model.verbose = 0
-        self.linear_mip_model.solver.set_mip_gap_abs(1e-10)
-        self.linear_mip_model.solver.set_mip_gap(1e-20)
+        self.linear_mip_model.max_mip_gap_abs = 1e-10
+        self.linear_mip_model.max_mip_gap = 1e-20
         self.linear_mip_model.lp_method = LP_Method.DUAL
 
     def add_variables(self, decision_variables):
-- 
2.43.0


From 4184b831228b805797f9387c1bbce25b06e599d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:58 +0000
Subject: [PATCH 20/33] fix: net the two sides of bidirectional units when
 carrying dispatch forward

construct_ramp_rate_parameters joined the last dispatch on the unit alone, so a
bidirectional unit got four rows with one sided initial outputs, which the
market then rejected. The service column is also optional, as documented.
---
 src/nempy/time_sequential.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..aff7f6b 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,7 +66,18 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    last_interval_energy_dispatch = last_interval_dispatch.copy()
+    if 'service' in last_interval_energy_dispatch.columns:
+        last_interval_energy_dispatch = \
+            last_interval_energy_dispatch[last_interval_energy_dispatch['service'] == 'energy'].copy()
+    if 'dispatch_type' in last_interval_energy_dispatch.columns and 'dispatch_type' in ramp_rates.columns:
+        # The initial output of a bidirectional unit is its net output, i.e. generation less consumption.
+        sides = ramp_rates.groupby('unit')['dispatch_type'].nunique()
+        consuming_side = (last_interval_energy_dispatch['unit'].isin(sides[sides > 1].index) &
+                          (last_interval_energy_dispatch['dispatch_type'] == 'load'))
+        last_interval_energy_dispatch.loc[consuming_side, 'dispatch'] *= -1.0
+        last_interval_energy_dispatch = \
+            last_interval_energy_dispatch.groupby('unit', as_index=False, sort=False)['dispatch'].sum()
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-- 
2.43.0


From 0deae9bf03ac86fd147fc4caee399abbe09064c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:12 +0000
Subject: [PATCH 21/33] fix: ConstraintData hands out copies of its tables, so
 changing one does not change later answers

---
 src/nempy/historical_inputs/constraints.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nempy/historical_inputs/constraints.py b/src/nempy/historical_inputs/constraints.py
index 737bdf9..e88e7b1 100644
--- a/src/nempy/historical_inputs/constraints.py
+++ b/src/nempy/historical_inputs/constraints.py
@@ -169,7 +169,7 @@ class ConstraintData:
                            (as `np.float64`)
             =============  ===========================================
         """
-        return self.generic_rhs
+        return self.generic_rhs.copy()
 
     def get_unit_lhs(self):
         """Get the lhs coefficients of units.
@@ -212,7 +212,7 @@ class ConstraintData:
             coefficient    the lhs coefficient (as `np.float64`)
             =============  ===========================================
         """
-        return self.unit_generic_lhs
+        return self.unit_generic_lhs.copy()
 
     def get_interconnector_lhs(self):
         """Get the lhs coefficients of interconnectors.
@@ -253,7 +253,7 @@ class ConstraintData:
             coefficient     the lhs coefficient (as `np.float64`)
             =============   ==========================================
         """
-        return self.interconnector_generic_lhs
+        return self.interconnector_generic_lhs.copy()
 
     def get_region_lhs(self):
         """Get the lhs coefficients of regions.
@@ -296,7 +296,7 @@ class ConstraintData:
             coefficient    the lhs coefficient (as `np.float64`)
             =============  ===========================================
         """
-        return self.region_generic_lhs
+        return self.region_generic_lhs.copy()
 
     def get_fcas_requirements(self):
         """Get constraint details needed for setting FCAS requirements.
@@ -343,7 +343,7 @@ class ConstraintData:
                        the column is missing (as `str`)
             ========   ===============================================
         """
-        return self.fcas_requirements
+        return self.fcas_requirements.copy()
 
     def get_violation_costs(self):
         """Get the violation costs for generic constraints.
-- 
2.43.0


From 75f7d738451b2fe851c7101848d275a3bca48182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:26 +0000
Subject: [PATCH 22/33] fix: unit, interconnector and constraint data all come
 from the interval selected at creation

---
 src/nempy/historical_inputs/constraints.py    |  8 +++++--
 .../historical_inputs/interconnectors.py      | 23 ++++++++++---------
 src/nempy/historical_inputs/units.py          |  8 ++++---
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/nempy/historical_inputs/constraints.py b/src/nempy/historical_inputs/constraints.py
index e88e7b1..f51b28a 100644
--- a/src/nempy/historical_inputs/constraints.py
+++ b/src/nempy/historical_inputs/constraints.py
@@ -86,6 +86,10 @@ class ConstraintData:
         self.fcas_requirements = self.fcas_requirements.loc[:, ['set', 'service', 'region', 'type', 'rhs']]
         self.fcas_requirements.columns = ['set', 'service', 'region', 'type', 'volume']
 
+        # Read when the object is created, like the rest of the data, because the loader can move to another interval.
+        self.constraint_violation_prices = self.raw_inputs_loader.get_constraint_violation_prices()
+        self.over_constrained_dispatch_rerun = self.raw_inputs_loader.is_over_constrained_dispatch_rerun()
+
     def get_rhs_and_type_excluding_regional_fcas_constraints(self):
         """Get the rhs values and types for generic constraints, excludes regional FCAS constraints.
 
@@ -403,7 +407,7 @@ class ConstraintData:
         dict
         """
 
-        return self.raw_inputs_loader.get_constraint_violation_prices()
+        return self.constraint_violation_prices.copy()
 
     def is_over_constrained_dispatch_rerun(self):
         """Get a boolean indicating if the over constrained dispatch rerun process was used for this interval.
@@ -422,5 +426,5 @@ class ConstraintData:
         -------
         bool
         """
-        return self.raw_inputs_loader.is_over_constrained_dispatch_rerun()
+        return self.over_constrained_dispatch_rerun
 
diff --git a/src/nempy/historical_inputs/interconnectors.py b/src/nempy/historical_inputs/interconnectors.py
index 6e5097c..ad7a60a 100644
--- a/src/nempy/historical_inputs/interconnectors.py
+++ b/src/nempy/historical_inputs/interconnectors.py
@@ -72,6 +72,13 @@ class InterconnectorData:
 
         self.interconnectors = _format_interconnector_definitions(self.INTERCONNECTOR, self.INTERCONNECTORCONSTRAINT)
 
+        # Read when the object is created, like the rest of the data, because the loader can move to another interval.
+        self.DISPATCHREGIONSUM = self.raw_input_loader.get_regional_loads()
+        self.LOSSFACTORMODEL = self.raw_input_loader.get_interconnector_loss_parameters()
+        self.LOSSMODEL = self.raw_input_loader.get_interconnector_loss_segments()
+        self.MNSP_INTERCONNECTOR = self.raw_input_loader.get_market_interconnectors()
+        self.mnsp_bids = self.raw_input_loader.get_market_interconnector_link_bid_availability()
+
     def get_interconnector_loss_model(self):
         """Returns inputs in the format needed to set interconnector losses in the SpotMarket class.
 
@@ -143,11 +150,7 @@ class InterconnectorData:
 
         """
 
-        DISPATCHREGIONSUM = self.raw_input_loader.get_regional_loads()
-        LOSSFACTORMODEL = self.raw_input_loader.get_interconnector_loss_parameters()
-        LOSSMODEL = self.raw_input_loader.get_interconnector_loss_segments()
-
-        regional_demand = demand._format_regional_demand(DISPATCHREGIONSUM)
+        regional_demand = demand._format_regional_demand(self.DISPATCHREGIONSUM.copy())
 
         interconnector_loss_coefficients = \
             self.INTERCONNECTORCONSTRAINT.loc[:, ['INTERCONNECTORID', 'LOSSCONSTANT', 'LOSSFLOWCOEFFICIENT',
@@ -155,13 +158,13 @@ class InterconnectorData:
         interconnector_loss_coefficients = aemo_to_nempy_name_mapping.map_aemo_column_names_to_nempy_names(
             interconnector_loss_coefficients)
 
-        interconnector_demand_coefficients = LOSSFACTORMODEL.loc[:, ['INTERCONNECTORID', 'REGIONID',
+        interconnector_demand_coefficients = self.LOSSFACTORMODEL.loc[:, ['INTERCONNECTORID', 'REGIONID',
                                                                      'DEMANDCOEFFICIENT']]
         interconnector_demand_coefficients = aemo_to_nempy_name_mapping.map_aemo_column_names_to_nempy_names(
             interconnector_demand_coefficients)
 
 
-        interpolation_break_points = LOSSMODEL.loc[:, ['INTERCONNECTORID', 'LOSSSEGMENT', 'MWBREAKPOINT']]
+        interpolation_break_points = self.LOSSMODEL.loc[:, ['INTERCONNECTORID', 'LOSSSEGMENT', 'MWBREAKPOINT']]
         interpolation_break_points = aemo_to_nempy_name_mapping.map_aemo_column_names_to_nempy_names(
             interpolation_break_points)
         interpolation_break_points['loss_segment'] = interpolation_break_points['loss_segment'].apply(np.int64)
@@ -269,12 +272,10 @@ class InterconnectorData:
         return interconnectors
 
     def _get_market_interconnector_links(self):
-        mnsp_bids = self.raw_input_loader.get_market_interconnector_link_bid_availability()
-        MNSP_INTERCONNECTOR = self.raw_input_loader.get_market_interconnectors()
-        mnsp_transmission_loss_factors = _format_mnsp_transmission_loss_factors(MNSP_INTERCONNECTOR,
+        mnsp_transmission_loss_factors = _format_mnsp_transmission_loss_factors(self.MNSP_INTERCONNECTOR,
                                                                                 self.INTERCONNECTORCONSTRAINT)
         mnsp_transmission_loss_factors = \
-            pd.merge(mnsp_transmission_loss_factors, mnsp_bids, on=['interconnector', 'to_region'])
+            pd.merge(mnsp_transmission_loss_factors, self.mnsp_bids, on=['interconnector', 'to_region'])
         mnsp_transmission_loss_factors['max'] = np.where(~mnsp_transmission_loss_factors['availability'].isna(),
                                                          mnsp_transmission_loss_factors['availability'],
                                                          mnsp_transmission_loss_factors['max'])
diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index 7ced716..e3503c4 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -82,6 +82,9 @@ class UnitData:
         self.uigf_values = self.raw_input_loader.get_UIGF_values()
 
         self.unit_details = self.raw_input_loader.get_unit_details()
+        # Read when the object is created, like the rest of the data, because the loader can move to another interval.
+        self.interval = self.raw_input_loader.interval
+        self.agc_enablement_limits = self.raw_input_loader.get_agc_enablement_limits()
         self.BIDPEROFFER_D = None
         self.fcas_trapeziums = None
         self.updated_fast_start_profiles = None
@@ -142,7 +145,7 @@ class UnitData:
         bid_availability = self.volume_bids.loc[:, ['DUID', 'BIDTYPE', 'DIRECTION', 'MAXAVAIL']]
         bid_availability = self._remove_non_energy_bids(bid_availability)
         bid_availability = bid_availability.loc[:, ['DUID', 'DIRECTION', 'MAXAVAIL']]
-        if self.raw_input_loader.interval < "2023/07/07 13:40":
+        if self.interval < "2023/07/07 13:40":
             bid_availability = self._remove_non_scheduled_units(bid_availability)
         bid_availability = an.map_aemo_column_names_to_nempy_names(bid_availability)
         bid_availability = an.map_aemo_column_values_to_nempy_name(bid_availability, 'dispatch_type')
@@ -671,8 +674,7 @@ class UnitData:
         # TODO: check if this should really be based as bid availability as it is now.
         unit_availability = self._get_unit_availability()
 
-        agc_enablement_limits = self.raw_input_loader.get_agc_enablement_limits()
-        BIDPEROFFER_D = _scaling_for_agc_enablement_limits(BIDPEROFFER_D, agc_enablement_limits)
+        BIDPEROFFER_D = _scaling_for_agc_enablement_limits(BIDPEROFFER_D, self.agc_enablement_limits)
         BIDPEROFFER_D = _scaling_for_agc_ramp_rates(BIDPEROFFER_D, initial_conditions)
         BIDPEROFFER_D = _scaling_for_uigf(BIDPEROFFER_D, self.uigf_values)
         self.BIDPEROFFER_D, BIDDAYOFFER_D = _enforce_preconditions_for_enabling_fcas(
-- 
2.43.0


From 562fa86e43f6f621eb93072cb889407f4f3314ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:55 +0000
Subject: [PATCH 23/33] fix: an interval with no generation forecasts can be
 prepared

---
 src/nempy/historical_inputs/xml_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index cabc7cc..c259cb6 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -632,7 +632,8 @@ class XMLCacheManager:
             if '@UIGF' in trader:
                 trades_by_unit_and_type['DUID'].append(trader['@TraderID'])
                 trades_by_unit_and_type['UIGF'].append(float(trader['@UIGF']))
-        trades_by_unit_and_type = pd.DataFrame(trades_by_unit_and_type)
+        # The ids are kept as text even when no unit has a forecast, so the table can still be merged with others.
+        trades_by_unit_and_type = pd.DataFrame(trades_by_unit_and_type).astype({'DUID': object})
         return trades_by_unit_and_type
 
     def get_violations(self):
-- 
2.43.0


From 3e1e4064a1d9802bbd1d8217876e7e0eea67a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 24/33] fix: price bids that do not increase from band to band
 are rejected

set_unit_price_bids documents BidsNotMonotonicIncreasing, and the schema names
the columns to check, but validate() never made the check.
---
 src/nempy/spot_market_backend/dataframe_validator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 29c3e71..3781f9f 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -31,19 +31,21 @@ class DataFrameSchema:
         if self.primary_keys is not None:
             self._check_for_repeated_rows(df)
 
+        if self.row_monatonic_increasing is not None:
+            self._check_row_monatonic_increasing(df)
+
     def _check_for_repeated_rows(self, df):
         cols_in_df = [col for col in self.primary_keys if col in df.columns]
         if len(df.index) != len(df.drop_duplicates(cols_in_df)):
             raise RepeatedRowError('{} should only have one row for each {}.'.format(self.name, ' '.join(cols_in_df)))
 
     def _check_row_monatonic_increasing(self, df):
-        df = df.loc[:, self.row_monatonic_increasing]
+        df = df.loc[:, [col for col in self.row_monatonic_increasing if col in df.columns]]
         df = df.transpose()
         df.index = pd.to_numeric(df.index)
         df = df.sort_index()
-        for col in df.columns:
-            if not df[col].is_monotonic:
-                raise BidsNotMonotonicIncreasing('Bids of each unit are not monotonic increasing.')
+        if (df.diff() < 0.0).any(axis=None):
+            raise BidsNotMonotonicIncreasing('Bids of each unit are not monotonic increasing.')
 
 
 class SeriesSchema:
-- 
2.43.0


From 3436909e4de7ad9998d1d8b63d86c2954f759932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 25/33] fix: a share of losses above 1.0 is rejected

set_interconnector_losses documents ColumnValues for a from_region_loss_share
outside 0.0 to 1.0; only the lower limit was checked.
---
 src/nempy/markets.py                                 | 2 +-
 src/nempy/spot_market_backend/dataframe_validator.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 664e017..099c3b4 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2365,7 +2365,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='link', data_type=str))
         schema.add_column(dv.SeriesSchema(name='loss_function', data_type=callable))
         schema.add_column(dv.SeriesSchema(name='from_region_loss_share', data_type=np.float64, must_be_real_number=True,
-                                          not_negative=True))
+                                          not_negative=True, maximum=1.0))
         schema.validate(loss_functions)
 
     @staticmethod
diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 3781f9f..ac5ba01 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -64,6 +64,7 @@ class SeriesSchema:
         self._check_allowed_values(series)
         self._check_is_real_number(series)
         self._check_is_not_negtaive(series)
+        self._check_is_within_range(series)
 
     def _check_data_type(self, series):
         if self.data_type == str:
@@ -94,6 +95,12 @@ class SeriesSchema:
             if series.min() < 0.0:
                 raise ColumnValues("Negative values not allowed in column '{}'.".format(self.name))
 
+    def _check_is_within_range(self, series):
+        if self.min is not None and series.min() < self.min:
+            raise ColumnValues("Values below {} not allowed in column '{}'.".format(self.min, self.name))
+        if self.max is not None and series.max() > self.max:
+            raise ColumnValues("Values above {} not allowed in column '{}'.".format(self.max, self.name))
+
 
 class RepeatedRowError(Exception):
     """Raise for repeated rows."""
-- 
2.43.0


From 4bffc5f84e7e3378bf1101fbbdad8fa333494dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 26/33] fix: two violation costs for one set are rejected

make_constraints_elastic documents RepeatedRowError for more than one row per
set; two rows with different costs passed and gave the set two deficit variables.
---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 099c3b4..3f918be 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2850,7 +2850,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
-- 
2.43.0


From 522c0452e0aea0c302c2f434c1a5973dc1db5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 27/33] fix: null, infinite and negative unit limits are
 rejected

The capacity and intermittent generation limits document ColumnValues for them;
a null limit was accepted and silently not applied.
---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 3f918be..6e8dc10 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -578,7 +578,8 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         if self.dispatch_type_required:
             schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     @_all_or_nothing
@@ -690,7 +691,8 @@ class SpotMarket:
     def _validate_uigf_limits(self, unit_limits):
         schema = dv.DataFrameSchema(name='unit_limits', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     @_all_or_nothing
-- 
2.43.0


From d6c45f93696cfa636318e6884e04001869d1f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 28/33] fix: a repeated break point of a loss function is
 rejected

set_interconnector_losses documents RepeatedRowError for a repeated break point;
only repeated loss segments were rejected.
---
 src/nempy/markets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 6e8dc10..033abba 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2379,6 +2379,9 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='loss_segment', data_type=np.int64))
         schema.add_column(dv.SeriesSchema(name='break_point', data_type=np.float64, must_be_real_number=True))
         schema.validate(interpolation_break_points)
+        if interpolation_break_points.duplicated(['interconnector', 'link', 'break_point']).any():
+            raise dv.RepeatedRowError('interpolation_break_points should only have one row for each interconnector link '
+                                      'break_point.')
 
     @_all_or_nothing
     @_use_copies_of_tables
-- 
2.43.0


From 6565afaf92ce3976aea5cd4eb13b920f6d026636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 29/33] fix: the fcas availability of bidirectional units
 allows for all their constraints

get_fcas_availability left out the joint ramping constraints of bidirectional
units, and used the slack in the constraints of one side of a unit for the other.
---
 src/nempy/markets.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 033abba..8311305 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3898,11 +3898,12 @@ class SpotMarket:
         """
         fcas_variable_slack = []
         for constraint_type in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
-                                'joint_capacity', 'energy_and_regulation_capacity', 'bidirectional_ramp_up',
-                                'bidirectional_ramp_down']:
+                                'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu', 'joint_capacity',
+                                'energy_and_regulation_capacity']:
             if constraint_type in self._constraints_rhs_and_type.keys():
                 service_coefficients = self._constraint_to_variable_map['unit_level'][constraint_type]
-                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'service', 'coefficient']]
+                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'dispatch_type', 'service',
+                                                                    'coefficient']]
                 constraint_slack = self._constraints_rhs_and_type[constraint_type].loc[:, ['constraint_id', 'slack',
                                                                                            'type']]
                 slack_temp = pd.merge(service_coefficients, constraint_slack, on='constraint_id')
@@ -3915,12 +3916,13 @@ class SpotMarket:
                      ((fcas_variable_slack['coefficient'] < 0.00001) & (fcas_variable_slack['coefficient'] > -0.00001)),
                      np.inf, fcas_variable_slack['slack'].abs() / fcas_variable_slack['coefficient'].abs())
         fcas_variable_slack = \
-            fcas_variable_slack.groupby(['unit', 'service'], as_index=False).aggregate({'service_slack': 'min'})
+            fcas_variable_slack.groupby(['unit', 'dispatch_type', 'service'], as_index=False).aggregate(
+                {'service_slack': 'min'})
         fcas_variable_slack = fcas_variable_slack[fcas_variable_slack['service'] != 'energy']
 
         dispatch_levels = self.get_unit_dispatch()
 
-        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'service'])
+        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'dispatch_type', 'service'])
 
         fcas_availability['availability'] = fcas_availability['dispatch'] + fcas_availability['service_slack']
         return fcas_availability.loc[:, ['unit', 'service', 'availability']]
-- 
2.43.0


From daacf632eb04f9965867ece0bb47deba79cf5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:05 +0000
Subject: [PATCH 30/33] fix: the fcas availability of a market without fcas
 constraints can be read

---
 src/nempy/markets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 8311305..20a9d99 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3909,6 +3909,9 @@ class SpotMarket:
                 slack_temp = pd.merge(service_coefficients, constraint_slack, on='constraint_id')
                 fcas_variable_slack.append(slack_temp)
 
+        if not fcas_variable_slack:
+            return pd.DataFrame(columns=['unit', 'service', 'availability'])
+
         fcas_variable_slack = pd.concat(fcas_variable_slack)
         fcas_variable_slack['service_slack'] = \
             np.where(((fcas_variable_slack['coefficient'] < 0.0) & (fcas_variable_slack['type'] == '<=')) |
-- 
2.43.0


From 3e7ae6ddc01eda721ca0f72eb3bc8451af881e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:39 +0000
Subject: [PATCH 31/33] fix: the slack of constraints is that of the reported
 solution

---
 .../spot_market_backend/solver_interface.py     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 91dc1dc..c5f30b4 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -390,8 +390,21 @@ class InterfaceToSolver:
         1              2    =  20.0    0.0
 
         """
-        slack = constraints_type_and_rhs['constraint_id'].apply(
-            lambda x: getattr(self.mip_model.constr_by_name(str(x)), "slack", 0.0))
+        # The slack is worked out from the values of the variables, the row slack provided by CBC for a model with
+        # integer variables or special ordered sets can belong to another solution with the same objective value.
+        def get_slack(constraint_id):
+            constraint = self.mip_model.constr_by_name(str(constraint_id))
+            if constraint is None:
+                return 0.0
+            expression = constraint.expr
+            lhs_less_rhs = sum(v.x * c for v, c in expression.expr.items()) + expression.const
+            if expression.sense == '=':
+                return abs(lhs_less_rhs)
+            if expression.sense == '<':
+                lhs_less_rhs *= -1.0
+            return max(0.0, lhs_less_rhs)
+
+        slack = constraints_type_and_rhs['constraint_id'].apply(get_slack)
         return slack
 
     def price_constraints(self, constraint_ids_to_price):
-- 
2.43.0


From 8dcb935c9ef4c15af39966e9e9ddae19ee0b9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:07 +0000
Subject: [PATCH 32/33] fix: prices allow for flow in both directions from a
 break point of the loss function

---
 src/nempy/markets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 20a9d99..a9ee727 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3280,9 +3280,9 @@ class SpotMarket:
 
         def not_closest_three(df):
             df = df.sort_values('distance')
-            # The flow must stay reachable, so also keep the closest break points on either side of it.
-            next_above = df.index[df['break_point'] >= df['value']][:1]
-            next_below = df.index[df['break_point'] <= df['value']][:1]
+            # The flow must be able to change in both directions, so also keep the closest break points on either side.
+            next_above = df.index[df['break_point'] > df['value'] + 0.0001][:1]
+            next_below = df.index[df['break_point'] < df['value'] - 0.0001][:1]
             df = df.iloc[3:, :]
             return df[~df.index.isin(next_above.union(next_below))]
 
-- 
2.43.0


From 452d958612eeb0d3b373df7b76a8de92d85bd236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:13 +0000
Subject: [PATCH 33/33] fix: nested groups of right hand side terms are
 evaluated like brackets

---
 src/nempy/historical_inputs/rhs_calculator.py | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index a9eab28..da28ed2 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -547,7 +547,8 @@ def _rpn_stack(equation):
     for i, term in enumerate(equation):
 
         if (term['@SpdType'] == 'G' and '@Value' not in term and
-                ('@GroupTerm' not in term or term['@GroupTerm'] not in ignore_groups)):
+                ('@GroupTerm' not in term or (term['@GroupTerm'] not in ignore_groups and
+                                              not _is_in_group_of_another_term(equation, term)))):
             # Deals with the case where a term of type G precedes at set of terms that form a group. In this case the
             # group terms are evaluated separately and the resulting value is given the type G term which is the
             # processed as normal equation term. The group members have their group ID added to the list of groups to
@@ -556,7 +557,7 @@ def _rpn_stack(equation):
             if '@GroupTerm' not in term:
                 # If the type G term does not share the group ID then we look at the next term to find the group ID.
                 if '@GroupTerm' in equation[i+1]:
-                    group_id = equation[i+1]['@GroupTerm']
+                    group_id = _get_outermost_group(equation, equation[i+1]['@GroupTerm'])
                 else:
                     continue
             else:
@@ -576,14 +577,14 @@ def _rpn_stack(equation):
             # Deals with the case where a type G term does not proceed the group. In this case the group is processed
             # and if a type G term is at the end of the group, the group result is added to that type G term, otherwise
             # the value from the group is added directly to the stack.
-            group_id = term['@GroupTerm']
+            group_id = _get_outermost_group(equation, term['@GroupTerm'])
             group = _collect_group(equation, group_id)
             group_result = _rpn_calc(group)
             if equation[i + len(group)]['@SpdType'] == 'G':
                 equation[i + len(group)]['@Value'] = group_result
             else:
                 stack[0] += group_result
-            ignore_groups.append(term['@GroupTerm'])
+            ignore_groups.append(group_id)
             sub_groups_ids = _get_sub_groups(group)
             ignore_groups += sub_groups_ids
 
@@ -1042,22 +1043,38 @@ def _clear_group_values(equation):
     return equation
 
 
+def _is_in_group_of_another_term(equation, term):
+    return any(other['@SpdType'] == 'G' and other['@TermID'] == term['@GroupTerm'] != term['@TermID']
+               for other in equation)
+
+
+def _get_outermost_group(equation, group_id):
+    # A group is nested in another one if the type G term it belongs to is itself a member of another group.
+    for term in equation:
+        if term['@SpdType'] == 'G' and term['@TermID'] == group_id and term.get('@GroupTerm', group_id) != group_id:
+            return _get_outermost_group(equation, term['@GroupTerm'])
+    return group_id
+
+
 def _collect_group(equation, group_id):
     group = []
     first_group_member_position = None
     last_group_member_position = None
     first_member_g_type = False
     for i, term in enumerate(equation):
-        if '@GroupTerm' in term and term['@GroupTerm'] == group_id and first_group_member_position is None:
+        in_group = '@GroupTerm' in term and group_id in [term['@GroupTerm'],
+                                                         _get_outermost_group(equation, term['@GroupTerm'])]
+
+        if in_group and first_group_member_position is None:
             first_group_member_position = i
             if term['@SpdType'] == 'G':
                 first_member_g_type = True
 
-        if '@GroupTerm' in term and term['@GroupTerm'] == group_id and first_group_member_position is not None:
+        if in_group and first_group_member_position is not None:
             last_group_member_position = i
 
         if (last_group_member_position == i - 1 and '@GroupTerm' in term and term['@GroupTerm'] != group_id and
-                first_member_g_type and
+                first_member_g_type and not _is_in_group_of_another_term(equation, term) and
                 (equation[i - 1]['@SpdType'] == 'G' or equation[i - 1]['@GroupTerm'] == term['@GroupTerm'])):
             last_group_member_position = i
 
-- 
2.43.0

