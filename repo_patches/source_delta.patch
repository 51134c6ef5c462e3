From 4d9a7685792e9561705ead9aba5c6611ddb1d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 01/35] fix: keep GMST in [0,24) for dates before 2000

---
 src/lmst_hr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lmst_hr.c b/src/lmst_hr.c
index 789b91e..a954e02 100644
--- a/src/lmst_hr.c
+++ b/src/lmst_hr.c
@@ -40,9 +40,9 @@ double lmst_hr(const double jd, double longit, double *gmst)
 //sid_g = sid_g + 1.0027379093 * ut - longit/24.;
   *gmst = sid_g + 1.00273790934 * ut;
   sid_g = *gmst + longit/360.;
-  *gmst *= 24.;
-  while (*gmst > 24.)
-	*gmst -= 24.;
+  *gmst = fmod(*gmst * 24., 24.);
+  if (*gmst < 0.)
+	*gmst += 24.;
 
   sid_int = sid_g;
   sid_g = (sid_g - (double)sid_int) * 24.;
-- 
2.43.0


From 7182be8b1002b698b623ff3db4cd92fa9e87c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 02/35] fix: keep J2000 RA/Dec on the sphere when precession
 crosses a pole or RA 0

---
 src/observe.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/observe.c b/src/observe.c
index d41d23b..8c32ed9 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,10 +119,17 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
+/* Beyond the pole: continue on the opposite meridian */
+  if ( *dec > PI / 2. ) {
+	*dec = PI - *dec;
+	*ra += PI;
+  } else if ( *dec < -PI / 2. ) {
+	*dec = -PI - *dec;
+	*ra += PI;
+  }
+
 /* LN add: RA in 0 - 2pi range */
-  //*ra = fmod(*ra + PI*10., TWOPI);
+  *ra = fmod(*ra, TWOPI);
   if ( *ra < 0. ) 
 	*ra += TWOPI;
-  else if ( *ra >= TWOPI )
-	*ra -= TWOPI;
 }
-- 
2.43.0


From 4eb9aa4ac9823e83757d5353764df4b5db03e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 03/35] fix: horizon coordinates on the meridian, at the poles
 and near the zenith

---
 src/dechalat2alt.c | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..217887d 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -22,14 +22,20 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 
 /* Manage peculiar cases and calculate Azimuth */
   if ( ha == 0. ) {
-	*az = 0.;
 	cosha = 1.;
-	cosaz = 1.;
 	sinha = 0.;
 	sinaz = 0.;
 	sinp  = 0.;
-	cosp = -1;
 	sinlat = sin(lat);
+	if ( dec < lat ) {  /* crossing the meridian south of the zenith */
+	  *az = 180.;
+	  cosaz = -1.;
+	  cosp = 1.;
+	} else {
+	  *az = 0.;
+	  cosaz = 1.;
+	  cosp = -1.;
+	}
   } else {
 	ha = ha * 15 * DEG2RAD;
 	cosha = cos(ha);
@@ -40,26 +46,20 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	    sinlat = -1.;
 	  else
 	    sinlat = 1.;
-          *az = ha;
-	  sinaz = sinha;
-	  cosaz = cosha;
-	  sinp  = 0.;
-	  cosp  = -1. * cosha*cosha - sinha*sinha;
-	} else {
+	} else
 	  sinlat = sin(lat);
 
-          *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
+        *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
 
-	  sinaz = sin(*az);
-	  cosaz = cos(*az);
+	sinaz = sin(*az);
+	cosaz = cos(*az);
 
-	  *az *= RAD2DEG;  /* done with taking trig functions of it ... */
-          if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
-          if (*az >= 360.) *az -= 360.;
-          if (cosdec != 0.) { /* protect divide by zero ... */
-	    sinp = -1. * sinaz * coslat / cosdec;
-	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
-	  }
+	*az *= RAD2DEG;  /* done with taking trig functions of it ... */
+        if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
+        if (*az >= 360.) *az -= 360.;
+        if (cosdec != 0.) { /* protect divide by zero ... */
+	  sinp = -1. * sinaz * coslat / cosdec;
+	  cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
 	}
   }
 
@@ -74,8 +74,12 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
    }
 
 /* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
+  double sinalt = cosdec*cosha*coslat + sindec*sinlat;
+
+  if ( (ha == 0. && fabs(dec - lat) < 1e-6) || sinalt >= 1. )
 	*alt = 90.;
+  else if ( sinalt <= -1. )
+	*alt = -90.;
   else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+	*alt = RAD2DEG * asin(sinalt);
 }
-- 
2.43.0


From 68e026310af56bd2a7e51b816d72242031022909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 04/35] fix: terminate and trim the satellite name line

---
 src/sat_skymap.c     | 13 +++++++------
 src/sat_visibility.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..ed48501 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -144,11 +144,10 @@ void sphrad2v(const double rarad, const double decrad, double v[3])
 */
 char *trimend(char *str)
 {
-  char *end;
+  size_t len = strlen(str);
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  while(len > 0 && isspace((unsigned char)str[len - 1])) len--;
+  str[len] = '\0';
 
   return str;
 }
@@ -706,7 +705,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
+    strncpy(sat_name, line1, 24);
+    sat_name[24] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -915,7 +915,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
-	  strncpy(sat_name, line2, 23);
+	  strncpy(sat_name, line2, 24);
+	  sat_name[24] = '\0';
 	  trimend(sat_name);
       }
     }  // end while fgets(line2 ...
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..7ea77cf 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -295,11 +295,10 @@ void sphrad2v(const double rarad, const double decrad, double v[3])
 
 char *trimend(char *str)
 {
-  char *end;
+  size_t len = strlen(str);
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  while(len > 0 && isspace((unsigned char)str[len - 1])) len--;
+  str[len] = '\0';
 
   return str;
 }
@@ -757,7 +756,8 @@ int main(int argc, char **argv)
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
+    strncpy(sat_name, line1, 24);
+    sat_name[24] = '\0';
     trimend(sat_name);
 
     while ( fgets(line2, sizeof(line2), ifile) ) {
@@ -789,7 +789,8 @@ int main(int argc, char **argv)
 
       strcpy(line1, line2);
       if ( line2[0] != '1' && line2[0] != '2' ) {
-	strncpy(sat_name, line2, 23);
+	strncpy(sat_name, line2, 24);
+	sat_name[24] = '\0';
 	trimend(sat_name);
       }
     }  // end while fgets(line2 ...
-- 
2.43.0


From 59a63b70b3b63f8219e9070b2f4d92d7b5bc9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 05/35] fix: command-line parsing: missing values, joined
 switches, over-long texts

---
 src/sat_skymap.c     | 65 +++++++++++++++++++++++++++++---------------
 src/sat_visibility.c | 51 +++++++++++++++++++++++-----------
 2 files changed, 78 insertions(+), 38 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index ed48501..210eb33 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -401,11 +401,20 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt && strchr("adDijlnprsSt", opt) ) {  /* option with a value */
+		  if ( argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
-		  ++i;
-		  par_pos = 0;
-		}
+			if ( i + 1 == argc ) {
+			  open_json();
+			  snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", argv[i]);
+			  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+			  exit(-1);
+			}
+			++i;
+			par_pos = 0;
+		  }
+		} else if ( opt && strchr("EGHITV", opt) && argv[i][2] != 0 )
+		  opt = 0;  /* switches have no value: report as not recognized */
 	switch( opt )
 	{
 	  /* Switches */
@@ -415,27 +424,21 @@ int main(int argc, char **argv)
  	  case 'E':
 		p.geoloc_reference = true;
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'G':
 		p.geoloc_requested = true;
-		i--;
 		break;
  	  case 'H':
 		p.haversine = true;
-		i--;
 		break;
  	  case 'I':
 		p.info_only = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
  	  case 'V':
 		p.sunlit_only = true;
-		i--;
 		break;
 
 	  /* Parameters */
@@ -450,14 +453,26 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		strcpy(p.date, argv[i] + par_pos);
+		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
+		if ( strlen(argv[i] + par_pos) >= sizeof(tle_path) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		strcpy(tle_path, argv[i] + par_pos);
 		p.use_deftledir = false;
 		break;
           case 'i':
+		if ( strlen(argv[i] + par_pos) >= sizeof(p.intl_desig) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
@@ -475,7 +490,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -488,13 +503,13 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
-		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
+		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
+		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -510,6 +525,12 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
+		if ( strlen(argv[i] + par_pos) >= sizeof(p.satname) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		strcpy(p.satname, argv[i] + par_pos);
 		len_satname = strlen(p.satname);
 		p.satname_filter = true;
@@ -519,7 +540,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
@@ -559,9 +580,9 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -672,9 +693,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -688,19 +709,19 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 7ea77cf..d9909e4 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -576,11 +576,20 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt && strchr("adDijlrst", opt) ) {  /* option with a value */
+		  if ( argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
-		  ++i;
-		  par_pos = 0;
-		}
+			if ( i + 1 == argc ) {
+			  open_json();
+			  snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", argv[i]);
+			  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+			  exit(-1);
+			}
+			++i;
+			par_pos = 0;
+		  }
+		} else if ( opt && strchr("NT", opt) && argv[i][2] != 0 )
+		  opt = 0;  /* switches have no value: report as not recognized */
 	switch( opt )
 	{
 	  /* Switches */
@@ -589,11 +598,9 @@ int main(int argc, char **argv)
 		exit(0);
  	  case 'N':
 		p.skip_daytime = true;
-		i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
 		break;
 
 	  /* Parameters */
@@ -616,10 +623,22 @@ int main(int argc, char **argv)
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
+		if ( strlen(argv[i] + par_pos) >= sizeof(tle_path) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		strcpy(tle_path, argv[i] + par_pos);
 		p.use_deftledir = false;
 		break;
           case 'i':
+		if ( strlen(argv[i] + par_pos) >= sizeof(p.intl_desig) ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
@@ -641,7 +660,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
@@ -660,7 +679,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
@@ -697,9 +716,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -725,9 +744,9 @@ int main(int argc, char **argv)
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -741,17 +760,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -803,7 +822,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
-- 
2.43.0


From 5ae96277c10cef340ba81719b45d521171e5c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 06/35] fix: escape texts printed as JSON strings

---
 src/sat_skymap.c     | 46 +++++++++++++++++++++++++++++++++---------
 src/sat_visibility.c | 48 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 74 insertions(+), 20 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 210eb33..f63ee9d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -153,6 +153,21 @@ char *trimend(char *str)
 }
 
 
+/*
+  Print a text as (part of) a JSON string: escape quotes, backslashes and control characters
+*/
+void print_json_text(const char *str)
+{
+  for ( ; *str; str++ )
+	if ( *str == '"' || *str == '\\' )
+	  printf("\\%c", *str);
+	else if ( (unsigned char)*str < ' ' )
+	  printf("\\u%04x", *str);
+	else
+	  putchar(*str);
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -192,11 +207,15 @@ void open_json() {
 }
 
 void add_params_json(Params p) {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd\": %11.5lf, \"epoch_UTC\": \"%s\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  print_json_text(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd\": %11.5lf, \"epoch_UTC\": \"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd);
+  print_json_text(p.date);
+  printf("\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
+    p.gmst, p.delta_time, p.max_sats);
 }
 
 void add_sundata_json(Sun sun) {
@@ -231,15 +250,19 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_text(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_text(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
-	 " \"n_sunlit_sats\": %d}\n", status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_text(errmsg);
+  printf("\", \"n_sats_found\": %d, \"n_sats\": %d,"
+	 " \"n_sunlit_sats\": %d}\n", n_sats_found, n_sats, n_sunlit_sats);
 }
 
 
@@ -910,8 +933,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  printf(" \"satellites\": [");
 		}
 
-		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, intl_desig, tle.norad_number);
+		printf("{\"name\": \"");
+		print_json_text(sat_name);
+		printf("\", \"intl_desig\": \"");
+		print_json_text(intl_desig);
+		printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9909e4..9643138 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -304,6 +304,21 @@ char *trimend(char *str)
 }
 
 
+/*
+  Print a text as (part of) a JSON string: escape quotes, backslashes and control characters
+*/
+void print_json_text(const char *str)
+{
+  for ( ; *str; str++ )
+	if ( *str == '"' || *str == '\\' )
+	  printf("\\%c", *str);
+	else if ( (unsigned char)*str < ' ' )
+	  printf("\\u%04x", *str);
+	else
+	  putchar(*str);
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -336,11 +351,17 @@ void open_json() {
 }
 
 void add_params_json() {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"%s\", \"%s\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  print_json_text(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1]);
+  print_json_text(p.date[0]);
+  printf("\", \"");
+  print_json_text(p.date[1]);
+  printf("\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
+    p.gmst, p.delta_time);
 }
 
 void add_fieldsdesc_json() {
@@ -386,15 +407,19 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf("\"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_text(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	putchar(' ');
+	print_json_text(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
-	 "}\n", status, errmsg, n_sats_found);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_text(errmsg);
+  printf("\", \"n_sats_found\": %d"
+	 "}\n", n_sats_found);
 }
 
 
@@ -975,8 +1000,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
-	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, intl_desig, tle.norad_number);
+	printf("{\"name\": \"");
+	print_json_text(sat_name);
+	printf("\", \"intl_desig\": \"");
+	print_json_text(intl_desig);
+	printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0


From 3f3e92b845790a6fb75d4e4ad891b859f275418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 07/35] fix: echo the run command also when the list file is
 the last argument

---
 src/sat_skymap.c     | 46 +++++++++++++++++++-------------------------
 src/sat_visibility.c | 40 ++++++++++++++++----------------------
 2 files changed, 37 insertions(+), 49 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f63ee9d..585c6fc 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -246,16 +246,10 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   printf(" \"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @");
-	print_json_text(argv[1]);
-	iarg++;
-  }
 
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	putchar(' ');
 	print_json_text(argv[i]);
   }
@@ -382,7 +376,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
 
@@ -430,7 +424,7 @@ int main(int argc, char **argv)
 			if ( i + 1 == argc ) {
 			  open_json();
 			  snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", argv[i]);
-			  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+			  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 			  exit(-1);
 			}
 			++i;
@@ -483,7 +477,7 @@ int main(int argc, char **argv)
 		if ( strlen(argv[i] + par_pos) >= sizeof(tle_path) ) {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
-		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		strcpy(tle_path, argv[i] + par_pos);
@@ -493,7 +487,7 @@ int main(int argc, char **argv)
 		if ( strlen(argv[i] + par_pos) >= sizeof(p.intl_desig) ) {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
-		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
@@ -514,7 +508,7 @@ int main(int argc, char **argv)
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -527,13 +521,13 @@ int main(int argc, char **argv)
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_region = true;
@@ -551,7 +545,7 @@ int main(int argc, char **argv)
 		if ( strlen(argv[i] + par_pos) >= sizeof(p.satname) ) {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
-		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		strcpy(p.satname, argv[i] + par_pos);
@@ -564,7 +558,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
 	}  // end switch
@@ -603,10 +597,10 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
   }
@@ -625,13 +619,13 @@ int main(int argc, char **argv)
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
 	sprintf(errmsg, "Could not allocate required buffer memory");
-  	close_stat_json(argc, argv, input_list, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
 
   sbuff[0] = '\0';
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
@@ -738,14 +732,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
 
@@ -796,7 +790,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    sprintf(errmsg, "Could not allocate required buffer memory");
-		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
 		}
@@ -826,7 +820,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
 		sprintf(errmsg, "Could not decode TLE data");
-		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
 
@@ -987,7 +981,7 @@ end_checking:
   if ( single_sat && !single_sat_found )
 	sprintf(errmsg, "Requested satellite not found in TLE file");
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
   return(0);
 }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 9643138..e1e3601 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -403,16 +403,10 @@ void add_sundata_json(char *label) {
     sun.ra, sun.dec, sun.az, sun.alt, sun.lon, sun.parang, sun.ang_sep);
 }
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found) {
   printf("\"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @");
-	print_json_text(argv[1]);
-	iarg++;
-  }
 
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	putchar(' ');
 	print_json_text(argv[i]);
   }
@@ -577,7 +571,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(0);
   }
 
@@ -607,7 +601,7 @@ int main(int argc, char **argv)
 			if ( i + 1 == argc ) {
 			  open_json();
 			  snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", argv[i]);
-			  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+			  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 			  exit(-1);
 			}
 			++i;
@@ -651,7 +645,7 @@ int main(int argc, char **argv)
 		if ( strlen(argv[i] + par_pos) >= sizeof(tle_path) ) {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
-		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		strcpy(tle_path, argv[i] + par_pos);
@@ -661,7 +655,7 @@ int main(int argc, char **argv)
 		if ( strlen(argv[i] + par_pos) >= sizeof(p.intl_desig) ) {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Value of command-line option '-%c' is too long", opt);
-		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
@@ -686,7 +680,7 @@ int main(int argc, char **argv)
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -705,7 +699,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", argv[i]);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
 	}  // end switch
@@ -741,19 +735,19 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, ++argv[iarg]);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 		exit(2);
 	}
   }
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
 	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
   }
 
@@ -790,13 +784,13 @@ int main(int argc, char **argv)
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 	exit(-2);
     }
 
@@ -848,7 +842,7 @@ int main(int argc, char **argv)
 
   if ( !single_sat_found ) {
 	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
 
@@ -916,7 +910,7 @@ int main(int argc, char **argv)
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
 	  sprintf(errmsg, "Satellite altitude out of requested range");
-	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	  close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
     }
@@ -1124,7 +1118,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
   }
 
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found);
 
   return(0);
 }
-- 
2.43.0


From c13f857dddd7984e048c3c0335c4fbcf71172b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 08/35] fix: close the satellites array when a later input file
 fails

---
 src/sat_skymap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 585c6fc..902c0e7 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -199,6 +199,8 @@ void Usage() {
 }
 
 
+static bool sats_open = false;  /* if the "satellites" array has been opened */
+
 void open_json() {
   printf("{"
     "\"swinfo\": {"
@@ -247,6 +249,8 @@ void add_satlatlon_json(Geoloc geo) {
 }
 
 void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
+  if ( sats_open )
+	printf("],");
   printf(" \"run_command\": \"%s", progname);
 
   for ( int i = 1; i < argc; i++ ) {
@@ -925,6 +929,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		else {
 		  add_fieldsdesc_json();
 		  printf(" \"satellites\": [");
+		  sats_open = true;
 		}
 
 		printf("{\"name\": \"");
@@ -974,9 +979,6 @@ end_checking:
 
   free(sbuff);
 
-  if ( !p.info_only && n_sats_found > 0 )
-	printf("],");
-
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
 	sprintf(errmsg, "Requested satellite not found in TLE file");
-- 
2.43.0


From 1be737d1d71ba93999a28844493c50a202f629ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 09/35] fix: single-satellite requests return the requested
 object only

---
 src/sat_skymap.c     | 11 ++++++-----
 src/sat_visibility.c |  9 ++-------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 902c0e7..5094711 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -763,10 +763,10 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("NORAD:->%s\n", norad_name);
 
 	 char intl_desig[12] = {"none"};
+	 bool is_requested = false;
 	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
+		if ( tle.norad_number == p.norad_n )
+			is_requested = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, 10, "%s%.2s-%s",
@@ -774,14 +774,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, tle.intl_desig + 2);
 
 		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
-		  single_sat_found = true;
+		  is_requested = true;
 	} else if ( p.satname_filter ) {
 		if ( memcmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
 /* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
+	if ( single_sat && !is_requested )
 		continue;
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
@@ -948,6 +948,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Speed is displayed in arcminutes/second (== degrees/minute) */
 	  }
 	  n_sats_found++;
+	  single_sat_found = single_sat;
 
 	  if ( is_sunlit )
 		n_sunlit_sats++;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index e1e3601..8d42c2e 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -722,7 +722,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[200];
+  char row[fname_len], tle_list_file[200];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -801,13 +801,8 @@ int main(int argc, char **argv)
     while ( fgets(line2, sizeof(line2), ifile) ) {
 
       if ( !parse_elements(line1, line2, &tle) ) { /* TLE found */
-/* First check if we have processed this sat already */
-	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
-	norad_name[5] = '\0';
-
 	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-- 
2.43.0


From 1a862a930d64b70e6f5034023c4cda1d32108e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 10/35] fix: match and print the whole international designator

---
 src/sat_skymap.c     | 17 ++++++++++-------
 src/sat_visibility.c | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 5094711..1e5d6ca 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -371,7 +371,7 @@ int main(int argc, char **argv)
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_intl_desig = 0, len_satname = 0;
+	 len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -495,7 +495,6 @@ int main(int argc, char **argv)
 		  exit(-1);
 		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -768,12 +767,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( tle.norad_number == p.norad_n )
 			is_requested = true;
 	 } else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( tle.intl_desig[0] != ' ' && !strcmp(intl_desig, p.intl_desig) )
 		  is_requested = true;
 	} else if ( p.satname_filter ) {
 		if ( memcmp(sat_name, p.satname, len_satname) )
@@ -902,10 +903,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		continue;
 
 	  if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 	  }
 
 	  d_ra = (ra1 - ra + TWOPI);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 8d42c2e..0d11d97 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -562,8 +562,7 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
-  int i, par_pos, status = 0, n_sats_found = 0,
-	 len_intl_desig = 0;
+  int i, par_pos, status = 0, n_sats_found = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -659,7 +658,6 @@ int main(int argc, char **argv)
 		  exit(-1);
 		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -805,12 +803,14 @@ int main(int argc, char **argv)
 		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( tle.intl_desig[0] != ' ' && !strcmp(intl_desig, p.intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -977,10 +977,12 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	mjd_sunlit_start = t - JD_OFF;
 
 	if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		if ( tle.intl_desig[0] != ' ' ) {
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		  trimend(intl_desig);
+		}
 	}
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-- 
2.43.0


From 2acf682307b7d732806c9a8855de3c27ff039cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 11/35] fix: match the satellite name as a substring (as
 documented)

---
 src/sat_skymap.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1e5d6ca..b9c47d2 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -370,8 +370,7 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[200], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
-  int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_satname = 0;
+  int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -552,7 +551,6 @@ int main(int argc, char **argv)
 		  exit(-1);
 		}
 		strcpy(p.satname, argv[i] + par_pos);
-		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
           case 't':
@@ -777,7 +775,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( tle.intl_desig[0] != ' ' && !strcmp(intl_desig, p.intl_desig) )
 		  is_requested = true;
 	} else if ( p.satname_filter ) {
-		if ( memcmp(sat_name, p.satname, len_satname) )
+		if ( strstr(sat_name, p.satname) == NULL )
 		continue;
 	}
  
-- 
2.43.0


From 223ab47ae2865b1e576b4b53cef58e0141d96148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 12/35] fix: documented option precedence in any order, invalid
 dates reported

---
 src/sat_skymap.c     | 19 ++++++++++++++-----
 src/sat_visibility.c | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index b9c47d2..68e86d3 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -373,6 +373,8 @@ int main(int argc, char **argv)
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
+	date_given = false,  /* Calendar Date given: ignore MJD */
+	dir_given = false,  /* TLE directory given: ignore the default one */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -474,7 +476,13 @@ int main(int argc, char **argv)
 		break;
           case 'd':
 		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
-		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		if ( date2mjd_nf(argv[i] + par_pos, &p.mjd) != 0 ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Date must be in the form yyyy-mm-ddThh:mm:ss. Read '%s'", p.date);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		date_given = true;
 		break;
  	  case 'D':
 		if ( strlen(argv[i] + par_pos) >= sizeof(tle_path) ) {
@@ -484,7 +492,7 @@ int main(int argc, char **argv)
 		  exit(-1);
 		}
 		strcpy(tle_path, argv[i] + par_pos);
-		p.use_deftledir = false;
+		dir_given = true;
 		break;
           case 'i':
 		if ( strlen(argv[i] + par_pos) >= sizeof(p.intl_desig) ) {
@@ -495,10 +503,11 @@ int main(int argc, char **argv)
 		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
 		break;
           case 'j':
+		if ( date_given )  /* Calendar Date has precedence */
+		  break;
 		p.mjd = atof(argv[i] + par_pos);
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
@@ -540,7 +549,6 @@ int main(int argc, char **argv)
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
 		break;
           case 'S':
@@ -568,7 +576,7 @@ int main(int argc, char **argv)
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !dir_given )
 	strcpy(tle_path, DEF_TLEDIR);
 
   if ( !in_geopos ) {
@@ -631,6 +639,7 @@ int main(int argc, char **argv)
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
 	p.geoloc_requested = true;
+	p.altrng_requested = false;  // No altitude filter
   }
 
 /* Local Mean Sidereal Time & GMST */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0d11d97..c74a363 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -564,6 +564,8 @@ int main(int argc, char **argv)
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
+	date_given = false,  /* Calendar Date given: ignore MJD */
+	dir_given = false,  /* TLE directory given: ignore the default one */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -636,9 +638,14 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
-		date2mjd_nf(p.date[0], &p.mjd[0]);
-		date2mjd_nf(p.date[1], &p.mjd[1]);
+		if ( sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]) != 2 ||
+		     date2mjd_nf(p.date[0], &p.mjd[0]) != 0 || date2mjd_nf(p.date[1], &p.mjd[1]) != 0 ) {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Dates must be in the form yyyy-mm-ddThh:mm:ss,yyyy-mm-ddThh:mm:ss. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		date_given = true;
 		break;
  	  case 'D':
 		if ( strlen(argv[i] + par_pos) >= sizeof(tle_path) ) {
@@ -648,7 +655,7 @@ int main(int argc, char **argv)
 		  exit(-1);
 		}
 		strcpy(tle_path, argv[i] + par_pos);
-		p.use_deftledir = false;
+		dir_given = true;
 		break;
           case 'i':
 		if ( strlen(argv[i] + par_pos) >= sizeof(p.intl_desig) ) {
@@ -659,13 +666,14 @@ int main(int argc, char **argv)
 		}
 		strcpy(p.intl_desig, argv[i] + par_pos);
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
 		if ( strchr(argv[i] + par_pos, '-') != NULL ) {  // A minimal check
 			Usage();
 		        exit(0);
 		}
+		if ( date_given )  /* Calendar Date has precedence */
+		  break;
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
@@ -689,7 +697,6 @@ int main(int argc, char **argv)
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
 		p.delta_time = atof(argv[i] + par_pos);
@@ -707,7 +714,7 @@ int main(int argc, char **argv)
   jd[1] = JD_OFF + p.mjd[1];
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !dir_given )
 	strcpy(tle_path, DEF_TLEDIR);
 
   if ( !in_geopos ) {
-- 
2.43.0


From 906d44f384946d51430e05ea88b8770c70ddbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 13/35] fix: supported span of the MJD and date conversions

---
 src/date2mjd_nf.c |  3 ++-
 src/mjd2date.c    | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/date2mjd_nf.c b/src/date2mjd_nf.c
index 695a0ee..8cb6824 100644
--- a/src/date2mjd_nf.c
+++ b/src/date2mjd_nf.c
@@ -21,7 +21,8 @@ int date2mjd_nf(const char *date, double *mjd) {
 
   nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%2d", &y, &m, &d, &h, &mm, &s);
 
-  if ( nr == 6 ) {
+  if ( nr == 6 && m >= 1 && m <= 12 && d >= 1 && d <= 31 &&
+       h >= 0 && h <= 23 && mm >= 0 && mm <= 59 && s >= 0 && s <= 60 ) {
     if ( m<=2 ) {
       y--;
       m += 12;
diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..88d7061 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -6,7 +6,7 @@
    From MJD to date in the form "2006-08-07T12:15:11.123".
 
 
-  Return '\0' for bad input date.
+  Return NULL for bad input date (the year must be in the range 0 - 9999).
 
   LN@INAF-OAS, Aug 2006                       Last change: 07/05/2024
 */
@@ -14,8 +14,8 @@
 #include <stdio.h>
 #include <math.h>
 
-static  const double DJMIN = -68569.5;
-static  const double DJMAX = 1e9;
+static  const double DJMIN = 1721059.5;  /*  0000-01-01T00:00:00 */
+static  const double DJMAX = 5373484.49999;  /* 9999-12-31T23:59:59 */
 static  const double DJ1 = 2400000.5;
 static  const double HALF_S_IN_DAYS = 0.000005787037037037037e0;
 
@@ -30,7 +30,7 @@ char *mjd2date(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -84,7 +84,7 @@ char *mjd2datef(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
-- 
2.43.0


From 66c109519940a615e6ab4f32d07aa965a744deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 14/35] fix: report option values out of range

---
 src/sat_skymap.c     | 59 ++++++++++++++++++++++++++++++++++++++------
 src/sat_visibility.c | 42 ++++++++++++++++++++++++++++---
 2 files changed, 90 insertions(+), 11 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 68e86d3..fd5df4c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -112,6 +112,7 @@
 */
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdbool.h>
 #include <string.h>
@@ -367,7 +368,9 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+	sat_name[25], tle_path_file[200], opt, *endptr, *mjd_date;
+  long norad_n, max_sats;
+  double delta_time;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0;
@@ -509,33 +512,53 @@ int main(int argc, char **argv)
 		if ( date_given )  /* Calendar Date has precedence */
 		  break;
 		p.mjd = atof(argv[i] + par_pos);
-		strcpy(p.date, mjd2date(p.mjd));
+		if ( (mjd_date = mjd2date(p.mjd)) == NULL )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		strcpy(p.date, mjd_date);
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
+		p.lon = fmod(p.lon, 360.);
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
+		if ( !isfinite(p.lon) || !isfinite(p.ht_in_meters) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Longitude and altitude must be finite numbers");
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'n':
-		sscanf(argv[i] + par_pos, "%d", &p.max_sats);
+		max_sats = strtol(argv[i] + par_pos, &endptr, 10);
+		if ( endptr == argv[i] + par_pos || max_sats < 1 || max_sats > INT_MAX )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Maximum number of satellites must be a positive integer. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		p.max_sats = max_sats;
 		break;
           case 'p':
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
-		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
+		if ( !(p.ra_deg >= 0. && p.ra_deg <= 360.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
-		if ( p.de_deg < -90. || p.de_deg > 90. )  {
+		if ( !(p.de_deg >= -90. && p.de_deg <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -545,9 +568,22 @@ int main(int argc, char **argv)
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !(p.search_radius >= 0.) || isinf(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Radius must be a positive number of degrees. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
           case 's':
-		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		if ( endptr == argv[i] + par_pos || norad_n < 0 || norad_n > INT_MAX )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "NORAD number must be a positive integer. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		p.norad_n = norad_n;
 		p.single_sat_n = true;
 		in_region = false;
 		break;
@@ -562,7 +598,14 @@ int main(int argc, char **argv)
 		p.satname_filter = true;
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_time = atof(argv[i] + par_pos);
+		if ( !(delta_time >= 1. && delta_time <= INT_MAX) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Delta time must be at least 1 second. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		p.delta_time = delta_time;
 		break;
           default:
 		open_json();
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index c74a363..13ee97b 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -262,6 +262,7 @@
 */
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdbool.h>
 #include <string.h>
@@ -560,6 +561,8 @@ int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
 	sat_name[25], tle_path_file[200], opt, *endptr;
+  long norad_n;
+  double delta_time;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
@@ -675,31 +678,64 @@ int main(int argc, char **argv)
 		if ( date_given )  /* Calendar Date has precedence */
 		  break;
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
+		if ( mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "MJD out of range. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
+		p.lon = fmod(p.lon, 360.);
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
+		if ( !isfinite(p.lon) || !isfinite(p.ht_in_meters) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Longitude and altitude must be finite numbers");
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !(p.search_radius >= 0.) || isinf(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Radius must be a positive number of degrees. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
           case 's':
-		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		if ( endptr == argv[i] + par_pos || norad_n < 0 || norad_n > INT_MAX )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "NORAD number must be a positive integer. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		p.norad_n = norad_n;
 		p.single_sat_n = true;
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_time = atof(argv[i] + par_pos);
+		if ( !(delta_time >= 1. && delta_time <= INT_MAX) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Delta time must be at least 1 second. Read '%s'", argv[i] + par_pos);
+		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		p.delta_time = delta_time;
 		break;
           default:
 		open_json();
-- 
2.43.0


From ae9a3e377dc1f6dd7ad6d8d2a6a4fb565fe35c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 15/35] fix: take right ascension and longitude differences the
 short way

---
 src/sat_skymap.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index fd5df4c..8cd9c2a 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -140,6 +140,22 @@ void sphrad2v(const double rarad, const double decrad, double v[3])
 }
 
 
+/*
+  Difference of two right ascensions (or longitudes) taken the short way: in the range [-PI, PI]
+*/
+double ra_diff(const double ra1, const double ra0)
+{
+  double d_ra = ra1 - ra0;
+
+  if ( d_ra > PI )
+	d_ra -= TWOPI;
+  else if ( d_ra < -PI )
+	d_ra += TWOPI;
+
+  return d_ra;
+}
+
+
 /*
   Trim trailing space
 */
@@ -911,21 +927,15 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-		d_ra = geo.lon * DEG2RAD - target_lon + TWOPI;
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
-		d_dec = geo.lat - target_lat;
+		d_ra = ra_diff(geo.lon * DEG2RAD, target_lon);
+		d_dec = geo.lat * DEG2RAD - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-		d_ra = (ra - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = ra_diff(ra, target_ra);
 		d_dec = dec - target_dec;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
-		d_ra = (ra1 - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = ra_diff(ra1, target_ra);
 		d_dec = dec1 - target_dec;
 		ang_sep1 = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 	  }
-- 
2.43.0


From 99e3d806a0a0055e572e87fc7259cf24b3e513e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 16/35] fix: position angle of motion across RA 0 and below 360

---
 src/sat_skymap.c     |  7 ++-----
 src/sat_visibility.c | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 8cd9c2a..9182463 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -971,10 +971,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		}
 	  }
 
-	  d_ra = (ra1 - ra + TWOPI);
-	  if ( d_ra > PI )
-		d_ra -= TWOPI;
-	  d_ra *= cos(dec);
+	  d_ra = ra_diff(ra1, ra) * cos(dec);
 	  d_dec = dec1 - dec;
 	  posn_ang_of_motion = atan2(d_ra, d_dec);
 	  if ( posn_ang_of_motion < 0. )
@@ -1007,7 +1004,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		printf("\"data\": [%8.4lf,%8.4lf,%8.4lf,%8.4lf,%9.2lf,%6.4lf,%3d,%6.3lf,%d,%ld]}",
 			ra * RAD2DEG, dec * RAD2DEG, ra1 * RAD2DEG, dec1 * RAD2DEG,
 			sep_to_satellite, ang_sep,
-			(int)(posn_ang_of_motion * RAD2DEG), speed, is_sunlit, id8nest);
+			(int)(posn_ang_of_motion * RAD2DEG) % 360, speed, is_sunlit, id8nest);
 /* Speed is displayed in arcminutes/second (== degrees/minute) */
 	  }
 	  n_sats_found++;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 13ee97b..778cc82 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -291,9 +291,24 @@ void sphrad2v(const double rarad, const double decrad, double v[3])
 
 
 /*
-  Trim trailing space
+  Difference of two right ascensions (or longitudes) taken the short way: in the range [-PI, PI]
 */
+double ra_diff(const double ra1, const double ra0)
+{
+  double d_ra = ra1 - ra0;
+
+  if ( d_ra > PI )
+	d_ra -= TWOPI;
+  else if ( d_ra < -PI )
+	d_ra += TWOPI;
+
+  return d_ra;
+}
 
+
+/*
+  Trim trailing space
+*/
 char *trimend(char *str)
 {
   size_t len = strlen(str);
@@ -392,7 +407,7 @@ void add_satdata_json(char *label) {
     "\"Date\": \"%s\", \"MJD\": %11.5lf, \"ra\": %8.4lf, \"dec\": %8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"Distance\": %9.2lf, \"Separation\": %6.4lf, \"PA\": %3d, \"Speed\": %6.3lf}",
     label,
     sat.cur_date, sat.cur_mjd, sat.ra * RAD2DEG, sat.dec * RAD2DEG, sat.az, sat.alt,
-    sat.d_km, sat.ang_sep, (int)(sat.parang * RAD2DEG), sat.speed);
+    sat.d_km, sat.ang_sep, (int)(sat.parang * RAD2DEG) % 360, sat.speed);
     if ( strstr(label,"sat_max") == NULL )
 	printf(", ");
 }
@@ -542,10 +557,7 @@ void get_sat_PA_and_speed(double t_since) {
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = (ra1 - sat.ra + TWOPI);
-	if ( d_ra > PI )
-		d_ra -= TWOPI;
-	d_ra *= cos(sat.dec);
+	d_ra = ra_diff(ra1, sat.ra) * cos(sat.dec);
 	d_dec = dec1 - sat.dec;
 	sat.parang = atan2(d_ra, d_dec);
 	if ( sat.parang < 0. )
-- 
2.43.0


From c4ef0dd0ae8b2b11bd66ca7dee7f88d2ec695236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 17/35] fix: start and end data refer to their own position and
 time

---
 src/sat_skymap.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 9182463..29e92dd 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -874,7 +874,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("is_deep: %d\n", is_deep);
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
-		pos[3],  /* Satellite position vector */
+		pos[3], pos1[3],  /* Satellite position vector at start and end time */
 		unused_delta2;
 
 	t_since = (jd - tle.epoch) * 1440.;  /* From days to minutes */
@@ -918,12 +918,17 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	if ( is_deep )
-		SDP4(t_since, &tle, sat_params, pos, NULL);
+		SDP4(t_since, &tle, sat_params, pos1, NULL);
 	else
-		SGP4(t_since, &tle, sat_params, pos, NULL);
+		SGP4(t_since, &tle, sat_params, pos1, NULL);
 
-	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
-	epoch_of_date_to_j2000(jd, &ra1, &dec1);
+	get_satellite_ra_dec_delta(observer_loc2, pos1, &ra1, &dec1, &unused_delta2);
+	epoch_of_date_to_j2000(jd + p.delta_time / SEC_IN_DAY, &ra1, &dec1);
+	if ( isnan(ra1) || isnan(dec1) ) {
+		sprintf(errmsg, "Could not decode TLE data");
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		exit(1);
+	}
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-- 
2.43.0


From d458b274bcdb3aeabbf8291036fbee6329fcfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 18/35] fix: enlarge the duplicates buffer before it overflows

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 29e92dd..8244d4c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -856,7 +856,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + 6 >= cur_bufflen ) {  /* 6 more characters and the terminator */
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-- 
2.43.0


From cdb65ffdddde2ecf2cc9a8c658946570ee2cb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 19/35] fix: list files with CR-LF line ends or trailing blanks

---
 src/sat_skymap.c     | 5 +----
 src/sat_visibility.c | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 8244d4c..8f0bf42 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -776,7 +776,6 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Loop on list of tle files or simple open of single input file */
   while ( read_tle_list ) {
 
-    char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
 	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
@@ -790,9 +789,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	trimend(row);  /* Drop linefeeds, CR, ... */
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 778cc82..c13383a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -813,7 +813,6 @@ int main(int argc, char **argv)
 /* Loop on list of tle files or simple open of single input file */
   while ( read_tle_list ) {
 
-    char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
 	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
@@ -827,9 +826,7 @@ int main(int argc, char **argv)
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	trimend(row);  /* Drop linefeeds, CR, ... */
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
-- 
2.43.0


From c8c20cdd21a47f991ad20d4ae266d96d89c34e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 20/35] fix: geodetic altitude above the poles

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 8f0bf42..9cd6ff0 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -373,7 +373,7 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 	geo->lat = atan2(pos[2] + ERAD * c * e2 * sinphi, r);
   } while (fabs(geo->lat - phi) >= 1e-10);
 
-  geo->alt = r/cos(geo->lat) - ERAD * c;  /* kilometers */
+  geo->alt = r * cos(geo->lat) + (pos[2] + ERAD * c * e2 * sinphi) * sin(geo->lat) - ERAD * c;  /* kilometers */
 
   geo->lat *= RAD2DEG;  /* degrees */
    if (geo->lat > 90.)
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index c13383a..3788aaa 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -509,7 +509,7 @@ void sat_geoLocation(double *pos) {
 	geo.lat = atan2(pos[2] + ERAD * c * e2 * sinphi, r);
   } while (fabs(geo.lat - phi) >= 1e-10);
 
-  geo.alt = r/cos(geo.lat) - ERAD * c;  /* kilometers */
+  geo.alt = r * cos(geo.lat) + (pos[2] + ERAD * c * e2 * sinphi) * sin(geo.lat) - ERAD * c;  /* kilometers */
 
   geo.lat *= RAD2DEG;  /* degrees */
    if (geo.lat > 90.)
-- 
2.43.0


From a3f014c8a1328284d9f77f0e2867b92e0c33a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 21/35] fix: visibility start, end, mid and max data belong to
 their instants

---
 src/sat_visibility.c | 216 ++++++++++++++-----------------------------
 1 file changed, 70 insertions(+), 146 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 3788aaa..db90f48 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -543,10 +543,11 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 }
 
 
-/* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
+/* Compute satellite ECI position (km) at a given JD time */
+
+void get_sat_pos(double t, double *pos) {
+	double t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
 
-void get_sat_PA_and_speed(double t_since) {
-	double pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
 	if ( sat.is_deep ) {
 	  SDP4_init(sat_params, &tle);
 	  SDP4(t_since, &tle, sat_params, pos, NULL);
@@ -554,7 +555,17 @@ void get_sat_PA_and_speed(double t_since) {
 	  SGP4_init(sat_params, &tle);
 	  SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
-	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
+}
+
+
+/* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
+
+void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
+	double pos[3], observer_loc[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+
+	get_sat_pos(t, pos);
+	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc);
+	get_satellite_ra_dec_delta(observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
 	d_ra = ra_diff(ra1, sat.ra) * cos(sat.dec);
@@ -566,6 +577,39 @@ void get_sat_PA_and_speed(double t_since) {
 }
 
 
+/* Compute and print the satellite and Sun data at a given JD time */
+
+void add_data_json(double t, char *label_geo, char *label_sun, char *label_sat, double rho_cos_phi, double rho_sin_phi) {
+	double pos[3], target_ra_rad, target_dec_rad = p.lat * DEG2RAD, parang_sat;
+	char *date;
+
+	p.lmst = lmst_hr(t, p.lon, &p.gmst);
+	p.ra_deg = p.lmst * 15.;
+	target_ra_rad = p.lmst / RAD2HRS;
+
+	get_sat_pos(t, pos);
+	sat_geoLocation(pos);
+
+	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
+
+	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);
+
+	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
+	get_sat_PA_and_speed(t + p.delta_time / SEC_IN_DAY, rho_cos_phi, rho_sin_phi);
+
+	get_sun_data(t, target_ra_rad, target_dec_rad, false);
+	add_satlatlon_json(label_geo);
+	add_sundata_json(label_sun);
+	sat.cur_mjd = t - JD_OFF;
+	date = mjd2date(sat.cur_mjd);
+	strcpy(sat.cur_date, date ? date : "");
+	sat.ha = p.lmst - sat.ra * RAD2HRS;
+	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
+	add_satdata_json(label_sat);
+}
+
+
 
 /* -- Main -- */
 
@@ -896,13 +940,13 @@ int main(int argc, char **argv)
 
    sat.is_deep = select_ephemeris(&tle);
 
-  double t_since, t_min_ang_dist = 0, min_ang_sep = 181, parang_sat,
-	mjd_sunlit_start = 0, mjd_sunlit_mid = 0, mjd_sunlit_end = 0,
+  double t_min_ang_dist = 0, min_ang_sep = 181,
+	t_sunlit_start = 0, t_sunlit_end = 0,
 	pos[3],  /* Satellite position vector */
 	t = jd[0],
 	eray[2];  /* Sun-Earth ray intersection radius */
 
-  bool is_t_start = true, sunlit_start_found = false, sunlit_end_found = false;
+  bool sunlit_start_found = false;
 
 
   p.de_deg = p.lat;
@@ -941,15 +985,7 @@ int main(int argc, char **argv)
     p.ra_deg = p.lmst * 15.;  
     target_ra_rad = p.lmst / RAD2HRS;
 
-    t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
-
-    if ( sat.is_deep ) {
-	SDP4_init(sat_params, &tle);
-	SDP4(t_since, &tle, sat_params, pos, NULL);
-    } else {
-	SGP4_init(sat_params, &tle);
-	SGP4(t_since, &tle, sat_params, pos, NULL);
-    }
+    get_sat_pos(t, pos);
 
     if ( p.altrng_requested ) {
 	sat_geoLocation(pos);
@@ -968,12 +1004,6 @@ int main(int argc, char **argv)
 
     sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
 
-/* Compute initial speed to be used to accelerate visibility search (TODO) */
-    if ( is_t_start ) {
-	is_t_start = false;
-	get_sat_PA_and_speed(t_since);
-    }
-
 /*
 printf("\nMJD, p.lmst, t_since, tle.epoch: %lf, %lf, %lf, %lf\n",t-JD_OFF, p.lmst, t_since, tle.epoch);
 printf("target_ra_rad, target_dec_rad, sat.ra, sat.dec, sat.ang_sep: %lf, %lf, %lf, %lf,  %lf\n", target_ra_rad*RAD2DEG, target_dec_rad*RAD2DEG, sat.ra*RAD2DEG, sat.dec*RAD2DEG, sat.ang_sep);
@@ -1000,34 +1030,26 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	t_min_ang_dist = t;
     }
 
-    t += p.delta_time / SEC_IN_DAY;  // add deltaT
-
     if ( !sat.is_sunlit ) {
+	t += p.delta_time / SEC_IN_DAY;  // add deltaT
 	if ( !sunlit_start_found )
 	  continue;
-
-/* First time the satellite no longer sunlit */
-	if ( !sunlit_end_found ) {
-	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
-	  sat_geoLocation(pos);
-	  add_satlatlon_json("geoloc_end");
-	  add_sundata_json("sun_end");
-	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
-	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
-	  sat.ha = p.lmst - sat.ra * RAD2HRS;
-	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	  epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-	  add_satdata_json("sat_end");
-	  break;
-      }
+	break;  /* First time the satellite no longer sunlit */
     }
 
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	t_sunlit_start = t;
+    }
+
+    t_sunlit_end = t;
+    t += p.delta_time / SEC_IN_DAY;  // add deltaT
+
+  }  // end time loop
 
+
+  if ( sunlit_start_found ) {
 	if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' ) {
 		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
@@ -1037,10 +1059,6 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 		}
 	}
 
-	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-
-	get_sat_PA_and_speed(t_since);
-
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
 	printf("{\"name\": \"");
@@ -1048,117 +1066,23 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	printf("\", \"intl_desig\": \"");
 	print_json_text(intl_desig);
 	printf("\", \"norad_n\": %d, ", tle.norad_number);
+	n_sats_found++;
 
-	sat_geoLocation(pos);
-	add_satlatlon_json("geoloc_start");
-	add_sundata_json("sun_start");
-	sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
-	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
-	sat.ha = p.lmst - sat.ra * RAD2HRS;
-	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-	add_satdata_json("sat_start");
-	  n_sats_found++;
-
-    } // end if !sunlit_start_found
-
-  }  // end time loop
-
-
-  t -= p.delta_time / SEC_IN_DAY;
-
-/* Still sunlit at the end of the requested time range */
-  if ( sunlit_start_found && !sunlit_end_found ) {
-	mjd_sunlit_end = t - JD_OFF;
-	sat_geoLocation(pos);
-	add_satlatlon_json("geoloc_end");
-	add_sundata_json("sun_end");
-	sat.cur_mjd = mjd_sunlit_end;
-	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
-	sat.ha = p.lmst - sat.ra * RAD2HRS;
-	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-	add_satdata_json("sat_end");
-  }
-
+	add_data_json(t_sunlit_start, "geoloc_start", "sun_start", "sat_start", rho_cos_phi, rho_sin_phi);
+	add_data_json(t_sunlit_end, "geoloc_end", "sun_end", "sat_end", rho_cos_phi, rho_sin_phi);
 
 /* Compute data at Tmid */
-  if ( sunlit_start_found ) {
-	mjd_sunlit_mid = mjd_sunlit_start + (mjd_sunlit_end - mjd_sunlit_start)/2.;
-	t = mjd_sunlit_mid + JD_OFF;
-	p.lmst = lmst_hr(t, p.lon, &p.gmst);
-	p.ra_deg = p.lmst * 15.;
-	target_ra_rad = p.lmst / RAD2HRS;
-
-	t_since = (t - tle.epoch) * 1440.;
-	
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
-
-	sat_geoLocation(pos);
-
-	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
-
-	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);
-
-	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
-
-	get_sun_data(t, target_ra_rad, target_dec_rad, false);
-	add_satlatlon_json("geoloc_mid");
-	add_sundata_json("sun_mid");
-	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
-	sat.ha = p.lmst - sat.ra * RAD2HRS;
-	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-	add_satdata_json("sat_mid");
-//printf("\n\nMid: %lf, %lf, %lf, %lf\n", sat.ha, sat.alt, sat.az, parang_sat);
-
+	t = t_sunlit_start + (t_sunlit_end - t_sunlit_start)/2.;
+	add_data_json(t, "geoloc_mid", "sun_mid", "sat_mid", rho_cos_phi, rho_sin_phi);
 
 /* Compute data at minimun Zenith distance (maximum altitude) */
-	t = t_min_ang_dist;
-
-	p.lmst = lmst_hr(t, p.lon, &p.gmst);
-	p.ra_deg = p.lmst * 15.;
-	target_ra_rad = p.lmst / RAD2HRS;
-
-	t_since = (t - tle.epoch) * 1440.;
-	
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
-
-	sat_geoLocation(pos);
-
-	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
-
-	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);
-
-	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);
-
-	get_sun_data(t, target_ra_rad, target_dec_rad, false);
-	add_satlatlon_json("geoloc_max");
-	add_sundata_json("sun_max");
-	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
-	sat.ha = p.lmst - sat.ra * RAD2HRS;
-	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-	add_satdata_json("sat_max");
-
+	add_data_json(t_min_ang_dist, "geoloc_max", "sun_max", "sat_max", rho_cos_phi, rho_sin_phi);
   }
 
 
   if ( n_sats_found > 0 ) {
 	printf("},"
-	" \"sunlit_duration_minutes\": %.2f, ", (float)(mjd_sunlit_end - mjd_sunlit_start)*1440.);
+	" \"sunlit_duration_minutes\": %.2f, ", (float)(t_sunlit_end - t_sunlit_start)*1440.);
   } else {
 	p.lmst = lmst_hr(jd[0], p.lon, &p.gmst);
 	target_ra_rad = p.lmst / RAD2HRS;
-- 
2.43.0


From b39bc60d4acd17e68aafa3626ecacf1d9921f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 22/35] fix: sat_visibility with an empty list file

---
 src/sat_visibility.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index db90f48..7cc588a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -616,7 +616,7 @@ void add_data_json(double t, char *label_geo, char *label_sun, char *label_sat,
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+	sat_name[25], tle_path_file[200] = {""}, opt, *endptr;
   long norad_n;
   double delta_time;
   double jd[2], rho_sin_phi, rho_cos_phi,
@@ -924,15 +924,15 @@ int main(int argc, char **argv)
       }
     }  // end while fgets(line2 ...
 
+    fclose(ifile);
+
     if ( single_sat_found )
 	break;
 
   }  // end while read_tle_list
 
-  fclose(ifile);
-
   if ( !single_sat_found ) {
-	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", input_list ? tle_list_file : tle_path_file);
 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
-- 
2.43.0


From 6c77cf4b1cf7cdcae3f95ad6b8e02f5ea1d8d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 23/35] fix: report the sidereal times of the start date in
 sat_visibility

---
 src/sat_visibility.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 7cc588a..c5cd017 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -949,6 +949,9 @@ int main(int argc, char **argv)
   bool sunlit_start_found = false;
 
 
+/* Zenith at the start of the range */
+  p.lmst = lmst_hr(jd[0], p.lon, &p.gmst);
+  p.ra_deg = p.lmst * 15.;
   p.de_deg = p.lat;
   target_dec_rad = p.lat * DEG2RAD;
 
-- 
2.43.0


From 4511afe282495ddd223964a7f878b919357a623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 24/35] fix: separation of antipodal directions is not NaN

---
 src/skysep_h.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skysep_h.c b/src/skysep_h.c
index a93a565..d5bf7f4 100644
--- a/src/skysep_h.c
+++ b/src/skysep_h.c
@@ -21,6 +21,6 @@ double skysep_h(const double theta1, const double phi1, const double theta2, con
   sin2a *= sin2a;
   sin2d = sin((phi2-phi1)/2.);
   sin2d *= sin2d;
-  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);
+  return (2 * asin( fmin(1., sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a)) ) * RAD2DEG);
 }
 
-- 
2.43.0


From 255fc24c9e93fc399bff27b8a04829b557723692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 25/35] fix: angle fields of TLE lines are read inside their
 eight columns

---
 src/get_el.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 7b92ea7..f66dc38 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -17,15 +17,16 @@
 
 /* TLEs have four angles on line 2,  given in the form DDD.DDDD.  This
 can be parsed more quickly as an integer,  then cast to double and
-converted to radians,  all in one step.    */
+converted to radians,  all in one step.  The field is eight bytes long. */
 
 static int get_angle( const char *buff)
 {
    int rval = 0;
+   const char *end = buff + 8;
 
-   while( *buff == ' ')
+   while( buff < end && *buff == ' ')
       buff++;
-   while( *buff != ' ')
+   while( buff < end && *buff != ' ')
       {
       if( *buff != '.')
          rval = rval * 10 + (int)( *buff - '0');
-- 
2.43.0


From 6bf22097f5409b508c0ecb156c16d1fb41eb7758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 26/35] fix: malformed exponents of TLE drag terms

---
 src/get_el.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index f66dc38..ca0d291 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -50,12 +50,17 @@ static double sci( const char *string)
 
    if( string[1] != ' ')
       {
-      const int ival = atoi( string);
+      char mantissa[7];
+      int ival;
+
+      memcpy( mantissa, string, 6);
+      mantissa[6] = '\0';
+      ival = atoi( mantissa);
 
       if( ival)
          {
          rval = (double)ival * 1.e-5;
-         if( string[7] != '0')
+         if( string[7] > '0' && string[7] <= '9')
             {
             int exponent = string[7] - '0';
 
-- 
2.43.0


From 3bba54f0dc755d175b84344b408d8553821bacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 27/35] fix: TLE lines without a checksum digit are not
 accepted

---
 src/get_el.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/get_el.c b/src/get_el.c
index ca0d291..20ddff6 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -100,6 +100,8 @@ int DLL_FUNC tle_checksum( const char *buff)
          return( -2);
       buff++;
       }
+   if( *buff < '0' || *buff > '9')  /* no checksum digit */
+      return( -2);
    rval -= *buff++ - '0';
    if( *buff > ' ')                 /* line unterminated */
       rval = -3;
-- 
2.43.0


From e2b7aaf106577dbaf28783d429764b63f1f39c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 28/35] fix: catalogue number is read from its five columns
 only

---
 src/get_el.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 20ddff6..6863f66 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -259,7 +259,8 @@ static int get_norad_number( const char *buff)
             + digits[3] * 10 + digits[2] * 100 + (digits[1] - 10) * 1000
             + digits[0] * 24000;
    else        /* last four digits are 0-9;  'standard' NORAD desig */
-      rval = digits[0] * 10000 + atoi( buff + 1);
+      rval = digits[0] * 10000 + digits[1] * 1000 + digits[2] * 100
+            + digits[3] * 10 + digits[4];
    return( rval);
 }
 
-- 
2.43.0


From 06a7c84a7ef6e5fed409fa78119f02b2bf6f9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 29/35] fix: state vector elements (type H) use the high-orbit
 model

---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From 95298eaab01a09aa5d6c95a0f58ecb5aaa3d5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 30/35] fix: malformed or wrongly summed state vector lines are
 rejected

---
 src/get_el.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 6863f66..f59e624 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -2,7 +2,6 @@
 
 #include <string.h>
 #include <stdint.h>
-#include <assert.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "norad.h"
@@ -149,19 +148,21 @@ vx, vy, vz are in 10^-4 m/s,  range +/- 94% c.  The state vectors
 are in the geocentric ecliptic plane of date.  See 'sdp4.cpp' for
 a discussion of how they're actually used.  */
 
-static double get_high_value( const char *iptr)
+static double get_high_value( const char *iptr, int *error)
 {
    int64_t rval = 0;
 
-   assert( *iptr == '+' || *iptr == '-');
-   if( *iptr == '+' || *iptr == '-')
+   if( *iptr != '+' && *iptr != '-')
+      *error = 1;
+   else
       {
       int i, digit;
 
       for( i = 1; i < 9; i++)
          {
          digit = mutant_dehex( iptr[i]);
-         assert( digit >= 0);
+         if( digit < 0)
+            *error = 1;
          rval = rval * (int64_t)36 + (int64_t)digit;
          }
       if( *iptr == '-')
@@ -336,14 +337,15 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
       if( sat->ephemeris_type == 'H')
          {
          size_t i;
+         int error = 0;
          double *state_vect = &sat->xincl;
 
          for( i = 0; i < 3; i++)
             {
-            state_vect[i]     = get_high_value( line1 + 33 + i * 10);
-            state_vect[i + 3] = get_high_value( line2 + 33 + i * 10) * 1e-4;
+            state_vect[i]     = get_high_value( line1 + 33 + i * 10, &error);
+            state_vect[i + 3] = get_high_value( line2 + 33 + i * 10, &error) * 1e-4;
             }
-         return( 0);
+         return( error ? -3 : checksum_problem);
          }
 
       sat->xmo = (double)get_angle( line2 + 43) * (PI / 180e+4);
-- 
2.43.0


From 49ca20a1fc4ccd5bdfbe23ee84dc314989716deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 31/35] fix: npix2nside64 for resolutions above 10^8

---
 HealpixC/chealpix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index d6e89c0..07cd643 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -820,7 +820,7 @@ static void pix2ang_nest_z_phi64 (int64_t nside_, int64_t pix, double *z,
 
 long npix2nside64(int64_t npix)
   {
-  int64_t res = isqrt64(npix/12.);
+  int64_t res = isqrt64(npix/12);
   return (res*res*12==npix) ? (long)res : -1;
   }
 
-- 
2.43.0


From a7dd50f6e324c340c004ff4f0465d29aaaa019f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 32/35] fix: satellite names beginning with 1 or 2 (1KUNS-PF)
 were not recognised as name lines

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 9cd6ff0..05a56d1 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -1023,7 +1023,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* not an element line */
 	  strncpy(sat_name, line2, 24);
 	  sat_name[24] = '\0';
 	  trimend(sat_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index c5cd017..b4489bd 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -917,7 +917,7 @@ int main(int argc, char **argv)
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {  /* not an element line */
 	strncpy(sat_name, line2, 24);
 	sat_name[24] = '\0';
 	trimend(sat_name);
-- 
2.43.0


From edad6de3132b8f5d83e452d911508f5b5c805086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 33/35] fix: refuse site altitudes beyond 1e9 m, which made the
 report contain nan

---
 src/sat_skymap.c     | 4 ++--
 src/sat_visibility.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 05a56d1..c40034b 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -548,9 +548,9 @@ int main(int argc, char **argv)
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
-		if ( !isfinite(p.lon) || !isfinite(p.ht_in_meters) )  {
+		if ( !isfinite(p.lon) || !(fabs(p.ht_in_meters) <= 1.e9) )  {
 		  open_json();
-		  snprintf(errmsg, sizeof(errmsg), "Longitude and altitude must be finite numbers");
+		  snprintf(errmsg, sizeof(errmsg), "Longitude must be a finite number and altitude at most 1e9 meters");
 		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index b4489bd..a29f90a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -755,9 +755,9 @@ int main(int argc, char **argv)
   		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
-		if ( !isfinite(p.lon) || !isfinite(p.ht_in_meters) )  {
+		if ( !isfinite(p.lon) || !(fabs(p.ht_in_meters) <= 1.e9) )  {
 		  open_json();
-		  snprintf(errmsg, sizeof(errmsg), "Longitude and altitude must be finite numbers");
+		  snprintf(errmsg, sizeof(errmsg), "Longitude must be a finite number and altitude at most 1e9 meters");
 		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
-- 
2.43.0


From 561bd9f59b52a54e5eba4b6177b1ea70255e3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 34/35] fix: an orbit wholly within the earth was reported as
 one with its perigee there (sxpx_posn_vel overwrote the status)

---
 src/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index a6586b6..7baa15a 100644
--- a/src/common.c
+++ b/src/common.c
@@ -184,7 +184,7 @@ int sxpx_posn_vel( const double xnode, const double a, const double ecc,
       return( rval);
    if( a * (1. - ecc) < 1. && a * (1. + ecc) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
-   if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
+   else if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
   /* Solve Kepler's' Equation */
    for( i = 0; i < MAX_KEPLER_ITER; i++)
-- 
2.43.0


From ef474088cc63c2106373529beba03e532e13f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 35/35] fix: nested pixel of directions just below longitude 2
 pi at |z| = 2/3

---
 HealpixC/chealpix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 07cd643..5d2100f 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -243,7 +243,7 @@ static int ang2pix_nest_z_phi (long nside_, double z, double phi)
     int jm = (int)(temp1+temp2); /* index of descending edge line */
     int ifp = jp/nside_;  /* in {0,4} */
     int ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
@@ -651,7 +651,7 @@ static int64_t ang2pix_nest_z_phi64 (int64_t nside_, double z, double s,
     int64_t jm = (int64_t)(temp1+temp2); /* index of descending edge line */
     int64_t ifp = jp/nside_;  /* in {0,4} */
     int64_t ifm = jm/nside_;
-    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? ifp : (ifm+8));
+    face_num = (ifp==ifm) ? (ifp|4) : ((ifp<ifm) ? (ifp&3) : ((ifm&3)+8));
 
     ix = jm & (nside_-1);
     iy = nside_ - (jp & (nside_-1)) - 1;
-- 
2.43.0

