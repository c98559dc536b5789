From 1ec67bf056829871daa2338b83967412064a78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 01/14] fix: writing a whole variable keeps the set of already
 written records consistent

write_var_* pushed a second entry for a variable which already had one, so that
close() found the older (partial) entry and overwrote written records with the
default fill value.
---
 src/io/file_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..1d39174 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -93,7 +93,8 @@ macro_rules! impl_write_typed_var {
 
             // Save the records already written
             let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
+            let all_records: Vec<usize> = (0..num_records).collect();
+            self.update_written_records(var, &all_records[..])?;
             Ok(())
         }
     };
-- 
2.43.0


From bb0eafda6ecae051ea1290d03d1615088b517ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 02/14] fix: variables having NaN attributes can be written

The variables of the data set were looked up with a structural equality, so that a
variable having a NaN in its attributes was not even equal to itself and writing
or filling it returned WriteError::Unexpected.
---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 1d39174..41f1472 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -387,7 +387,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
                     None => all_records.clone().into_iter().collect(),
@@ -454,7 +454,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -696,7 +696,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| std::ptr::eq(var, *var_2))
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From b0943c0d434dfa7332aa9e805f2bfba0a800a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 03/14] fix: fixed-size variables have exactly one record

When the data set defines an unlimited dimension, close() filled the unwritten
fixed-size variables once per record of the data set (never if there is no record,
over the following data if there are many), and write_record_*/read_record accepted
record indices which do not exist for a fixed-size variable.
---
 src/io/file_reader.rs |  2 +-
 src/io/file_writer.rs | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..52d0586 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables haves exaclty one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 41f1472..8ec5b30 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -92,8 +92,7 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            let all_records: Vec<usize> = (0..num_records).collect();
+            let all_records: Vec<usize> = (0..var.num_chunks()).collect();
             self.update_written_records(var, &all_records[..])?;
             Ok(())
         }
@@ -110,7 +109,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // fixed-size variables have exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
@@ -380,17 +379,16 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();  // fixed-size variables have exactly one record
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
-                    None => all_records.clone().into_iter().collect(),
+                    None => all_records.into_iter().collect(),
                     Some(written_records) => all_records.difference(&written_records).cloned().collect(),
                 };
                 not_written_records.push((var, not_written_record));
-- 
2.43.0


From 33e33bd4c972b98e642f7882604d2a667fc2ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 04/14] fix: pad the attribute values with zeros in the header

The NetCDF-3 format requires null bytes in the header padding (and FileReader checks
it), but the values of NC_BYTE and NC_SHORT attributes were padded with the fill value,
which produced files that can not be opened again.
---
 src/io/file_writer.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 8ec5b30..f380e83 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -572,15 +572,22 @@ impl<'a> FileWriter<'a> {
             let num_elements: usize = attr.len();
             let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
             num_bytes += out_stream.write(&bytes)?;
-            // The data of the attribute
-            num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+            // The data of the attribute, padded with zeros as the whole header
+            let mut attr_bytes: Vec<u8> = vec![];
+            let _ = match &attr.data {
+                DataVector::I8(slice) => FileWriter::write_chunk_i8(&mut attr_bytes, slice)?,
+                DataVector::U8(slice) => FileWriter::write_chunk_u8(&mut attr_bytes, slice)?,
+                DataVector::I16(slice) => FileWriter::write_chunk_i16(&mut attr_bytes, slice)?,
+                DataVector::I32(slice) => FileWriter::write_chunk_i32(&mut attr_bytes, slice)?,
+                DataVector::F32(slice) => FileWriter::write_chunk_f32(&mut attr_bytes, slice)?,
+                DataVector::F64(slice) => FileWriter::write_chunk_f64(&mut attr_bytes, slice)?,
             };
+            let num_useful_bytes: usize = num_elements * attr.data_type().size_of();
+            for padding_byte in attr_bytes[num_useful_bytes..].iter_mut() {
+                *padding_byte = 0;
+            }
+            out_stream.write_all(&attr_bytes)?;
+            num_bytes += attr_bytes.len();
 
             Ok(num_bytes)
         }
-- 
2.43.0


From 54b5b203ddadf92ca598c49a495ac386edc20b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 05/14] fix: a file defining the same variable twice is not a
 valid data set

FileReader accepted such a file and silently mixed both variables up.
---
 src/data_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..dbec476 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -549,6 +549,9 @@ impl DataSet {
     }
 
     pub(crate) fn add_var_using_dim_refs(&mut self, var_name: &str, var_dims: Vec<Rc<Dimension>>, data_type: DataType) -> Result<&Variable, InvalidDataSet> {
+        if self.find_var_from_name(var_name).is_ok() {
+            return Err(InvalidDataSet::VariableAlreadyExists(var_name.to_string()));
+        }
         let _ = self.vars.push(Variable::new(var_name, var_dims, data_type)?);
         Ok(self.vars.last().unwrap())
     }
-- 
2.43.0


From d15589f04c2bcf833528632f1094b6c3fdc23fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 06/14] fix: renaming a global attribute with its own name does
 nothing

As for the dimensions, the variables and the variable attributes.
---
 src/data_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index dbec476..37352b8 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1067,6 +1067,7 @@ impl DataSet {
         // Check that both names are different
         if old_attr_name == new_attr_name {
             // nothing to do
+            return Ok(());
         }
 
         // Check that the `old_attr_name` attribute has been defined
-- 
2.43.0


From 43e35cc4b2aa7872afe3e1d35b141eaee48077be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 07/14] fix: do not parse bytes which have not been read

The number of bytes returned by read() was ignored, so that a short read silently
replaced a part of the header with zeros.
---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 52d0586..f55c512 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From 8c54c742ce760d155bfee1c04df011c4471ef89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 08/14] fix: a short write does not corrupt the header

The header was written with write(), which may write only a part of the bytes.
---
 src/io/file_writer.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index f380e83..691f761 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -465,12 +465,12 @@ impl<'a> FileWriter<'a> {
 
     fn write_header(&mut self) -> Result<usize, WriteError>{
         let header_def: &HeaderDefinition = self.header_def.as_ref().ok_or(WriteError::HeaderNotDefined)?;
-        self.output_file.seek(SeekFrom::Start(0))?;
+        let mut out_stream: Vec<u8> = vec![];
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        num_bytes += out_stream.write("CDF".as_bytes())?;
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        num_bytes += out_stream.write(&[header_def.version.clone() as u8])?;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -484,21 +484,24 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        num_bytes += out_stream.write(&bytes)?;
         // the list of the dimensions
-        num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
+        num_bytes += FileWriter::write_dims_list(&mut out_stream, &header_def.data_set.dims)?;
         // the list of the global attributes
-        num_bytes += FileWriter::write_attrs_list(&mut self.output_file, &header_def.data_set.attrs)?;
+        num_bytes += FileWriter::write_attrs_list(&mut out_stream, &header_def.data_set.attrs)?;
 
         // the list of the variables
         // -------------------------
         // compute the number of bytes *begin-offset* for each variable of the dataset
         let data_set_metadata: &ComputedDataSetMetadata = &header_def.data_set_metadata;
-        num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
+        num_bytes += FileWriter::write_vars_list(&mut out_stream, &data_set_metadata.vars_metadata)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
         for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
+            num_bytes +=  out_stream.write(&[0_u8])?;
         }
+        // write all the bytes of the header
+        self.output_file.seek(SeekFrom::Start(0))?;
+        self.output_file.write_all(&out_stream)?;
         Ok(num_bytes)
     }
 
-- 
2.43.0


From 9e0e88fe98b7c3bebaf812553d648a9043fedcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 09/14] fix: the header is not defined if it could not be
 written

set_def() kept the definition when writing the header failed, so that it could not be
tried again and the following calls succeeded on a file without a valid header.
---
 src/io/file_writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 691f761..7c493a3 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -351,7 +351,10 @@ impl<'a> FileWriter<'a> {
             Some(_) => return Err(WriteError::HeaderAlreadyDefined),
             None => self.header_def = Some(HeaderDefinition::new(data_set, version, header_min_size)?),
         }
-        let _ = self.write_header()?;
+        if let Err(err) = self.write_header() {
+            self.header_def = None;  // the header has not been written
+            return Err(err);
+        }
         Ok(())
     }
 
-- 
2.43.0


From f5c27a833ecc1c3b4c7059488da22cefbd6f2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 10/14] fix: do not allocate memory from the unchecked counts
 of the header

A file of a few bytes could require (and abort on) an allocation of many gigabytes.
---
 src/io/file_reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index f55c512..117bbb1 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -708,6 +708,10 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all the elements are available, before any memory allocation
+        let _ = take(data_type.size_of() * num_of_elements)(input).map_err(|err: NomError|{
+            ParseHeaderError::new(err, ParseHeaderErrorKind::DataElements)
+        })?;
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -753,7 +757,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -781,7 +785,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -799,7 +803,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
-- 
2.43.0


From 7acac580ba5d8a23d341b564cb34717656c8c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 11/14] fix: check the begin offsets of the variables read from
 the header

A negative offset was used as a huge one, and an offset after the end of the file
overflowed the computation of the indeterminate number of records.
---
 src/io/file_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 117bbb1..bf4d7a5 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -603,7 +603,7 @@ impl FileReader {
                 else {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
@@ -816,12 +816,12 @@ impl FileReader {
         {
             match version {
                 Version::Classic => {
-                    be_i32(input).map(|(input, num_of_bytes): (&[u8], i32)| {
+                    verify(be_i32, |offset: &i32| *offset >= 0)(input).map(|(input, num_of_bytes): (&[u8], i32)| {
                         (input, Offset::I32(num_of_bytes))
                     })
                 },
                 Version::Offset64Bit => {
-                    be_i64(input).map(|(input, num_of_bytes): (&[u8], i64)| {
+                    verify(be_i64, |offset: &i64| *offset >= 0)(input).map(|(input, num_of_bytes): (&[u8], i64)| {
                         (input, Offset::I64(num_of_bytes))
                     })
                 },
-- 
2.43.0


From 54d89e42b66b85dbfaf28c11664b153ee8a7591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 12/14] fix: check the size of the data before allocating
 memory and reading

The sizes computed from the header of a malformed (or truncated) file could overflow,
or require the allocation of much more memory than the size of the file.
---
 src/io/file_reader.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index bf4d7a5..6f9e606 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -416,6 +416,10 @@ impl FileReader {
             let num_bytes: usize = chunk_len * data_type.size_of();
             compute_padding_size(num_bytes)
         };
+        if var.len() > 0 {
+            let last_chunk_offset: u64 = ((var.num_chunks() - 1) * record_size) as u64;
+            self.check_data_bounds(begin_offset + last_chunk_offset, chunk_len * data_type.size_of())?;
+        }
         let ref mut input = self.input_file;
         input.seek(SeekFrom::Start(begin_offset))?;
         // memory allocation
@@ -478,10 +482,11 @@ impl FileReader {
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
         let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        let data_type: DataType = var.data_type();
+        self.check_data_bounds(record_offset, var.chunk_len() * data_type.size_of())?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
-        let data_type: DataType = var.data_type();
         let mut data_vec: DataVector = DataVector::new(data_type, var.chunk_len());
         match data_vec {
             DataVector::I8(ref mut data) => self.input_file.read_i8_into(&mut data[..]),
@@ -592,6 +597,8 @@ impl FileReader {
             }
         }
 
+        FileReader::check_data_size(&data_set, num_records).ok_or(ReadError::Unexpected)?;
+
         if !num_records_is_determinated {
             // Case an *unlimited-size* dim s defined
             if let Some(dim) = data_set.get_unlimited_dim() {
@@ -625,6 +632,31 @@ impl FileReader {
         Ok((data_set, version, var_info_list))
     }
 
+    /// Returns `None` if the size (number of bytes) of a variable or of the records overflows.
+    fn check_data_size(data_set: &DataSet, num_records: usize) -> Option<()> {
+        let mut record_size: usize = 0;
+        for var in data_set.vars.iter() {
+            let chunk_size: usize = var.dims.iter()
+                .filter(|dim: &&Rc<Dimension>| dim.is_fixed())
+                .try_fold(var.data_type.size_of(), |size: usize, dim: &Rc<Dimension>| size.checked_mul(dim.size()))?;
+            let _ = i64::try_from(chunk_size).ok()?.checked_add(3)?;  // including the padding bytes
+            if var.is_record_var() {
+                record_size = record_size.checked_add(chunk_size + compute_padding_size(chunk_size))?;
+            }
+        }
+        let _ = i64::try_from(record_size.checked_mul(std::cmp::max(num_records, 1))?).ok()?;
+        Some(())
+    }
+
+    /// Checks that the bytes read from `begin_offset` are in the file, before any memory allocation.
+    fn check_data_bounds(&self, begin_offset: u64, num_bytes: usize) -> Result<(), ReadError> {
+        let file_size: u64 = self.input_file.metadata()?.len();
+        match begin_offset.checked_add(num_bytes as u64) {
+            Some(end_offset) if end_offset <= file_size => Ok(()),
+            _ => Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof)),
+        }
+    }
+
     fn parse_magic_word(input: &[u8]) -> Result<(&[u8], &[u8]), ParseHeaderError>
     {
         let (input, tag_value): (&[u8], &[u8]) = tag(&b"CDF"[..])(input).map_err(|err: NomError|{
-- 
2.43.0


From 19df8fa609c84aa1411a97fea048113566a7b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 13/14] fix: open the files having a variable larger than 2 GiB

The size of a variable is stored on 32 bits and is valid up to 2^32 - 4 (see the NetCDF-3
file format specifications), but the values greater than 2^31 - 1 were rejected.
---
 src/io/file_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 6f9e606..71d0396 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -873,7 +873,12 @@ impl FileReader {
             // data type of the variable
             let (input, data_type): (& [u8], DataType) = FileReader::parse_data_type(input)?;
             // size occupied in each record by the variable (number of bytes)
-            let (input, chunk_size): (&[u8], Option<usize>) = FileReader::parse_as_usize_optional(input)?;
+            // (redundant with the dimensions and up to 2^32 - 4, or indeterminate)
+            let (input, chunk_size): (&[u8], Option<usize>) = be_u32(input).map(|(input, size): (&[u8], u32)| {
+                (input, if size == std::u32::MAX { None } else { Some(size as usize) })
+            }).map_err(|err: NomError| {
+                ParseHeaderError::new(err, ParseHeaderErrorKind::NonNegativeI32)
+            })?;
             // begin offset (number of bytes)
             let (input, begin_offset): (&[u8], Offset) = parse_offset(input, version)?;
             let var_def = VariableParsedMetadata {
-- 
2.43.0


From d687b8fccd89ba32cc0bfba2d17e39be6d2becf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 14/14] fix: take the size of the opened file, not of what its
 path names later

FileReader::open opened the file, then took its size by path. When the file
was replaced in between (an atomic update by rename), the header and the
number of records were computed with the size of another file: a spurious
error, or wrong numbers of records.
---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 71d0396..38df438 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -281,7 +281,7 @@ impl FileReader {
             path
         };
         let mut input_file = std::fs::File::open(input_file_path.clone())?;
-        let file_size: usize = std::fs::metadata(&input_file_path)?.len() as usize; 
+        let file_size: usize = input_file.metadata()?.len() as usize; 
         
         // Parse the header
         let (data_set, version, vars_info): (DataSet, Version, Vec<VariableParsedMetadata>) = {
-- 
2.43.0

