SEEDS = [
dict(id="T01-feb29", prop="T01", edits=[("Db/dbdata.c", "    if (isleap(*yr))  n -= n > 62 ? 1 : 2;", "    if (isleap(*yr))  n -= n >= 62 ? 1 : 2;")],
  needs="the 29th of February", breaks="29 February is decoded as 30 February",
  demo=r"""
int main() { int y, m, d, n; void *db = wg_attach_local_database(1000000); OK(db);
  n = wg_ymd_to_date(db, 2024, 2, 29); OK(n > 0); wg_date_to_ymd(db, n, &y, &m, &d); OK(y == 2024 && m == 2 && d == 29);
  wg_date_to_ymd(db, n + 1, &y, &m, &d); OK(m == 3 && d == 1); return 0; }"""),
dict(id="T01-long-year", prop="T01", edits=[("Db/dbdata.c", "  c=snprintf(buf,24,", "  c=snprintf(buf,23,")],
  needs="a year of five digits", breaks="the last digit of the time is not printed",
  demo=r"""
int main() { char b[64]; void *db = wg_attach_local_database(1000000); OK(db);
  OK(wg_strf_iso_datetime(db, wg_ymd_to_date(db, 12345, 6, 7), wg_hms_to_time(db, 1, 2, 3, 45), b) == 23);
  OK(!strcmp(b, "12345-06-07T01:02:03.45")); return 0; }"""),
]
