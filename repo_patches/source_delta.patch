From 0f3593e85683509402d8fb7b77b3e1aebd033216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 01/59] fix: ThreadPool constructor ends started workers when a
 thread cannot be created

---
 mml/tools/ThreadPool.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mml/tools/ThreadPool.h b/mml/tools/ThreadPool.h
index aa32fd8..ab5be52 100644
--- a/mml/tools/ThreadPool.h
+++ b/mml/tools/ThreadPool.h
@@ -121,6 +121,12 @@ namespace MML
 			if (numThreads == 0)
 				throw std::invalid_argument("ThreadPool requires at least 1 thread");
 				
+			// If a thread cannot be created, stop and join the workers already started before reporting it
+			struct StartGuard {
+				ThreadPool* pool;
+				~StartGuard() { if (pool) pool->stop_and_join(); }
+			} guard{this};
+
 			for (size_t i = 0; i < numThreads; ++i)
 				workers.emplace_back([this]
 					{
@@ -175,11 +181,20 @@ namespace MML
 							}
 						}
 					});
+
+			guard.pool = nullptr;
 		}
 		
 		/// @brief Destructor - waits for all pending tasks to complete before joining threads
 		/// @note Blocks until all queued and in-flight tasks finish execution
 		~ThreadPool()
+		{
+			stop_and_join();
+		}
+
+	private:
+		/// @brief Let the workers drain the queue, end them and wait for them
+		void stop_and_join()
 		{
 			// Set stop flag and notify under lock, then release BEFORE joining
 			{
@@ -193,6 +208,8 @@ namespace MML
 				worker.join();
 		}
 
+	public:
+
 		// Non-copyable and non-movable
 		ThreadPool(const ThreadPool&) = delete;
 		ThreadPool& operator=(const ThreadPool&) = delete;
-- 
2.43.0


From 52f2d063c244239dd27bfce6ef47c387a58d7a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 02/59] fix: ThreadPool worker survives memory exhaustion while
 recording a task failure

---
 mml/tools/ThreadPool.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mml/tools/ThreadPool.h b/mml/tools/ThreadPool.h
index ab5be52..2169bd1 100644
--- a/mml/tools/ThreadPool.h
+++ b/mml/tools/ThreadPool.h
@@ -152,16 +152,22 @@ namespace MML
 							catch (...) {
 								// Capture exception
 								std::exception_ptr eptr = std::current_exception();
-								{
+								try {
 									std::lock_guard<std::mutex> lock(this->exceptions_mutex);
 									this->exceptions.push(eptr);
 								}
+								catch (...) {
+									// Out of memory: the failure cannot be queued, but the worker must survive
+								}
 								// Invoke error callback if set (copy under lock to avoid data race)
 								std::function<void(std::exception_ptr)> cb;
-								{
+								try {
 									std::lock_guard<std::mutex> lock(this->exceptions_mutex);
 									cb = this->error_callback;
 								}
+								catch (...) {
+									// Out of memory: the callback cannot be copied, but the worker must survive
+								}
 								if (cb) {
 									try {
 										cb(eptr);
-- 
2.43.0


From ea4050c20c72753e1b5b0c10a8dc7913427d3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 03/59] fix: serializers report a write or close failure
 instead of success

---
 mml/tools/serializer/SerializerCurves.h     | 10 ++++++++++
 mml/tools/serializer/SerializerFieldLines.h |  8 ++++++++
 mml/tools/serializer/SerializerFunctions.h  | 22 +++++++++++++++++++++
 mml/tools/serializer/SerializerODE.h        |  8 ++++++++
 mml/tools/serializer/SerializerSimulation.h |  4 ++++
 mml/tools/serializer/SerializerSurfaces.h   | 10 ++++++++++
 mml/tools/serializer/SerializerVectors.h    |  8 ++++++++
 7 files changed, 70 insertions(+)

diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index db20385..6b11c89 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -58,6 +58,8 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved parametric curve"};
 			}
 			catch (const std::exception& e)
@@ -99,6 +101,8 @@ namespace MML
 				}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved parametric curve"};
 			}
 			catch (const std::exception& e)
@@ -143,6 +147,8 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved parametric curve"};
 			}
 			catch (const std::exception& e)
@@ -184,6 +190,8 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved parametric curve"};
 			}
 			catch (const std::exception& e)
@@ -237,6 +245,8 @@ namespace MML
 					file << t << " " << vec_x[i] << " " << vec_y[i] << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return { true, SerializeError::OK, "Successfully saved parametric curve 2D" };
 			}
 			catch (const std::exception& e) {
diff --git a/mml/tools/serializer/SerializerFieldLines.h b/mml/tools/serializer/SerializerFieldLines.h
index 7577112..7f020ee 100644
--- a/mml/tools/serializer/SerializerFieldLines.h
+++ b/mml/tools/serializer/SerializerFieldLines.h
@@ -89,6 +89,8 @@ namespace MML
 				}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
 			}
 			catch (const std::exception& e)
@@ -137,6 +139,8 @@ namespace MML
 				}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
 			}
 			catch (const std::exception& e)
@@ -189,6 +193,8 @@ namespace MML
 				}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
 			}
 			catch (const std::exception& e)
@@ -233,6 +239,8 @@ namespace MML
 				}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
 			}
 			catch (const std::exception& e)
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 38e1b44..217478e 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -53,6 +53,8 @@ namespace MML
 					Real x = x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
+				if (!out)
+					return {false, SerializeError::WRITE_FAILED, "Write error: output stream failed"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -75,6 +77,8 @@ namespace MML
 
 			auto result = SaveRealFunc(file, f, title, x1, x2, numPoints, precision);
 			file.close();
+			if (result.success && !file)
+				return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 			return result;
 		}
 
@@ -96,6 +100,8 @@ namespace MML
 					Real x = points[i];
 					out << x << " " << f(x) << std::endl;
 				}
+				if (!out)
+					return {false, SerializeError::WRITE_FAILED, "Write error: output stream failed"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -117,6 +123,8 @@ namespace MML
 
 			auto result = SaveRealFunc(file, f, title, points, precision);
 			file.close();
+			if (result.success && !file)
+				return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 			return result;
 		}
 
@@ -140,6 +148,8 @@ namespace MML
 					Real x = x1 + i * step;
 					out << f(x) << std::endl;
 				}
+				if (!out)
+					return {false, SerializeError::WRITE_FAILED, "Write error: output stream failed"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -161,6 +171,8 @@ namespace MML
 
 			auto result = SaveRealFuncEquallySpaced(file, f, title, x1, x2, numPoints, precision);
 			file.close();
+			if (result.success && !file)
+				return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 			return result;
 		}
 
@@ -197,6 +209,8 @@ namespace MML
 
 					out << std::endl;
 				}
+				if (!out)
+					return {false, SerializeError::WRITE_FAILED, "Write error: output stream failed"};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -219,6 +233,8 @@ namespace MML
 
 			auto result = SaveRealMultiFunc(file, funcs, title, legend, x1, x2, numPoints, precision);
 			file.close();
+			if (result.success && !file)
+				return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 			return result;
 		}
 
@@ -257,6 +273,8 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -300,6 +318,8 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -343,6 +363,8 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 1211821..95bc8db 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -54,6 +54,8 @@ namespace MML
 				}
 				
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -95,6 +97,8 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -138,6 +142,8 @@ namespace MML
 				}
 				
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -183,6 +189,8 @@ namespace MML
 				}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 47c0946..4a81d80 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -85,6 +85,8 @@ namespace MML
 				}
 				file << buffer.str();
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -155,6 +157,8 @@ namespace MML
 					}
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
diff --git a/mml/tools/serializer/SerializerSurfaces.h b/mml/tools/serializer/SerializerSurfaces.h
index 5187222..9afd16b 100644
--- a/mml/tools/serializer/SerializerSurfaces.h
+++ b/mml/tools/serializer/SerializerSurfaces.h
@@ -84,6 +84,8 @@ namespace MML
 				}
 				
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -140,6 +142,8 @@ namespace MML
 				}
 				
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -209,6 +213,8 @@ namespace MML
 					}
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -269,6 +275,8 @@ namespace MML
 					}
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -341,6 +349,8 @@ namespace MML
 					}
 				}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
diff --git a/mml/tools/serializer/SerializerVectors.h b/mml/tools/serializer/SerializerVectors.h
index a469404..cc01b3a 100644
--- a/mml/tools/serializer/SerializerVectors.h
+++ b/mml/tools/serializer/SerializerVectors.h
@@ -55,6 +55,8 @@ namespace MML
 						file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -98,6 +100,8 @@ namespace MML
 							file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -161,6 +165,8 @@ namespace MML
 						}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
@@ -210,6 +216,8 @@ namespace MML
 						}
 
 				file.close();
+				if (!file)
+					return {false, SerializeError::WRITE_FAILED, "Write error: " + fileName};
 				return {true, SerializeError::OK, "Success"};
 			}
 			catch (const std::exception& e)
-- 
2.43.0


From 22b758c9edb5fedc32bc974a961004b26c16e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 04/59] fix: matrix, vector and table file writers report a
 write or close failure

---
 mml/base/Vector/Vector.h        |  6 +++++-
 mml/tools/ConsolePrinter.h      |  8 ++++++++
 mml/tools/serializer/MatrixIO.h | 12 ++++++++++++
 mml/tools/serializer/VectorIO.h |  4 ++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 99e669f..8480056 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -519,6 +519,10 @@ namespace MML
 			}
 			
 			file.close();
+			if (!file) {
+				std::cerr << "Error: could not write file " << filename << std::endl;
+				return false;
+			}
 			return true;
 		}
 		
@@ -583,7 +587,7 @@ namespace MML
 				file << val << std::endl;
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from text file
diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 04d2741..bf190db 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -532,6 +532,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			print(file);
+			file.close();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 		// Convert to string
@@ -573,6 +577,10 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			exportTo(file, format);
+			file.close();
+			if (!file) {
+				throw FileIOError("Cannot write file: " + filename, filename);
+			}
 		}
 
 	private:
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 46b977f..3270e69 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -89,6 +89,10 @@ namespace Serializer
 		}
 		
 		file.close();
+		if (!file) {
+			std::cerr << "Error: could not write file " << filename << std::endl;
+			return false;
+		}
 		return true;
 	}
 
@@ -155,6 +159,10 @@ namespace Serializer
 		}
 		
 		file.close();
+		if (!file) {
+			std::cerr << "Error: could not write file " << filename << std::endl;
+			return false;
+		}
 		return true;
 	}
 
@@ -207,6 +215,10 @@ namespace Serializer
 		           static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
 		file.close();
+		if (!file) {
+			std::cerr << "Error: could not write file " << filename << std::endl;
+			return false;
+		}
 		return true;
 	}
 
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index 5ac2710..b5d38d1 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -77,6 +77,10 @@ bool SaveComplexVector(const std::vector<std::complex<T>>& vec,
     }
     
     file.close();
+    if (!file) {
+        std::cerr << "Error: could not write file " << filename << std::endl;
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From f59c411cc72cbe3ecfe2dc603b9e8f6c7eaf7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 05/59] fix: matrix and vector loaders fail on truncated,
 unreadable or oversized files

---
 mml/base/Vector/Vector.h        | 31 +++++++++++++++++++++------
 mml/tools/serializer/MatrixIO.h | 37 ++++++++++++++++++++++++++++-----
 mml/tools/serializer/VectorIO.h |  8 +++++--
 3 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 8480056..e31916b 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -539,7 +539,7 @@ namespace MML
 			}
 			
 			// Read and verify header
-			uint32_t magic, version, size, elemSize;
+			uint32_t magic = 0, version = 0, size = 0, elemSize = 0;
 			
 			file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
 			if (magic != BinaryFormat::MAGIC_VECTOR) {
@@ -562,12 +562,26 @@ namespace MML
 				return false;
 			}
 			
+			// Validate the declared size against the actual file size
+			const auto dataStart = file.tellg();
+			file.seekg(0, std::ios::end);
+			const auto fileSize = file.tellg();
+			file.seekg(dataStart);
+			if (!file || fileSize - dataStart < static_cast<std::streamoff>(size) * static_cast<std::streamoff>(sizeof(Type))) {
+				std::cerr << "Error: file " << filename << " is too small for declared size " << size << std::endl;
+				return false;
+			}
+			
 			// Read data
 			outVec._elems.resize(size);
 			if (size > 0) {
 				file.read(reinterpret_cast<char*>(outVec._elems.data()), 
 				          size * sizeof(Type));
 			}
+			if (!file) {
+				std::cerr << "Error: could not read data from " << filename << std::endl;
+				return false;
+			}
 			
 			file.close();
 			return true;
@@ -599,12 +613,17 @@ namespace MML
 			std::ifstream file(filename);
 			if (!file.is_open()) return false;
 			
-			size_t size;
-			file >> size;
-			outVec._elems.resize(size);
+			size_t size = 0;
+			if (!(file >> size)) return false;
 			
-			for (size_t i = 0; i < size; ++i)
-				file >> outVec._elems[i];
+			// Collect the elements first: memory grows with the file, not with the declared size
+			std::vector<Type> elems;
+			for (size_t i = 0; i < size; ++i) {
+				Type value{};
+				if (!(file >> value)) return false;
+				elems.push_back(value);
+			}
+			outVec._elems = std::move(elems);
 			
 			file.close();
 			return true;
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 3270e69..0885b01 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -49,17 +49,28 @@ namespace Serializer
 			return false;
 		}
 		
-		int rows, cols;
+		int rows = 0, cols = 0;
 		file >> rows >> cols;
 		if (file.fail() || rows <= 0 || cols <= 0 || rows > 100000 || cols > 100000) {
 			std::cerr << "Error: invalid dimensions (" << rows << "x" << cols << ") in " << filename << std::endl;
 			return false;
 		}
+
+		// Collect the elements first: memory grows with the file, not with the declared size
+		std::vector<Type> elems;
+		for (size_t k = 0; k < static_cast<size_t>(rows) * static_cast<size_t>(cols); ++k) {
+			Type value{};
+			if (!(file >> value)) {
+				std::cerr << "Error: missing or unreadable element " << k << " in " << filename << std::endl;
+				return false;
+			}
+			elems.push_back(value);
+		}
+
 		outMat.Resize(rows, cols);
-		
 		for (int i = 0; i < rows; ++i)
 			for (int j = 0; j < cols; ++j)
-				file >> outMat(i, j);
+				outMat(i, j) = elems[static_cast<size_t>(i) * cols + j];
 		
 		file.close();
 		return true;
@@ -122,14 +133,16 @@ namespace Serializer
 			std::string cell;
 			while (std::getline(ss, cell, ',')) {
 				std::stringstream cellStream(cell);
-				Type value;
+				Type value{};
 				cellStream >> value;
+				if (cellStream.fail()) return false;
 				row.push_back(value);
 			}
 			if (!row.empty())
 				data.push_back(row);
 		}
 		
+		if (file.bad()) return false;
 		file.close();
 		if (data.empty()) return false;
 		
@@ -239,7 +252,7 @@ namespace Serializer
 		}
 		
 		// Read and verify header
-		uint32_t magic, version, rows, cols, elemSize, reserved;
+		uint32_t magic = 0, version = 0, rows = 0, cols = 0, elemSize = 0, reserved = 0;
 		
 		file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
 		if (magic != BinaryFormat::MAGIC_MATRIX) {
@@ -268,10 +281,24 @@ namespace Serializer
 			return false;
 		}
 		
+		// Validate the declared size against the actual file size
+		const auto dataStart = file.tellg();
+		file.seekg(0, std::ios::end);
+		const auto fileSize = file.tellg();
+		file.seekg(dataStart);
+		if (!file || fileSize - dataStart < static_cast<std::streamoff>(rows) * cols * static_cast<std::streamoff>(sizeof(Type))) {
+			std::cerr << "Error: file " << filename << " is too small for declared dimensions (" << rows << "x" << cols << ")" << std::endl;
+			return false;
+		}
+
 		// Read data
 		outMat.Resize(static_cast<int>(rows), static_cast<int>(cols));
 		file.read(reinterpret_cast<char*>(outMat.data()), 
 		          static_cast<std::streamsize>(rows) * cols * sizeof(Type));
+		if (!file) {
+			std::cerr << "Error: could not read data from " << filename << std::endl;
+			return false;
+		}
 		
 		file.close();
 		return true;
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index b5d38d1..c1ca0a0 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -100,7 +100,7 @@ bool LoadComplexVector(const std::string& filename,
     }
     
     // Read and verify header
-    uint32_t magic, version, count, elemSize;
+    uint32_t magic = 0, version = 0, count = 0, elemSize = 0;
     
     file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
     if (magic != BinaryFormat::MAGIC_VECTOR_COMPLEX) {
@@ -130,7 +130,7 @@ bool LoadComplexVector(const std::string& filename,
     file.seekg(currentPos);
 
     auto expectedDataSize = static_cast<std::streamoff>(count) * elemSize * 2;
-    if (fileSize - currentPos < expectedDataSize) {
+    if (!file || fileSize - currentPos < expectedDataSize) {
         std::cerr << "Error: file " << filename << " is too small for declared count "
                   << count << " (need " << expectedDataSize << " data bytes, have "
                   << (fileSize - currentPos) << ")" << std::endl;
@@ -148,6 +148,10 @@ bool LoadComplexVector(const std::string& filename,
     for (uint32_t i = 0; i < count; ++i) {
         file.read(reinterpret_cast<char*>(&imagParts[i]), sizeof(T));
     }
+    if (!file) {
+        std::cerr << "Error: could not read data from " << filename << std::endl;
+        return false;
+    }
     
     // Construct complex values
     vec.resize(count);
-- 
2.43.0


From 537f42f045bcefbb0e68ae8a182029c8feab878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 06/59] fix: data set loaders report read errors instead of a
 shortened data set

---
 mml/tools/data_loader/DataLoaderCSV.h  | 2 ++
 mml/tools/data_loader/DataLoaderJSON.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index daca260..447abaf 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -70,6 +70,8 @@ namespace MML {
 				std::vector<std::string> fields = SplitLine(line, opts.delimiter);
 				allData.push_back(fields);
 			}
+			if (file.bad())
+				throw DataError("LoadCSV: Read error in file '" + filename + "'");
 
 			if (allData.empty())
 				throw DataError("LoadCSV: File is empty");
diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index bd5d6a7..014475b 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -285,6 +285,8 @@ namespace MML {
 
 			std::stringstream buffer;
 			buffer << file.rdbuf();
+			if (!buffer)
+				throw DataError("LoadJSON: File '" + filename + "' is empty or cannot be read");
 			std::string content = buffer.str();
 
 			// Remove BOM if present
-- 
2.43.0


From d66445cfcdf3f9595fb5ce72e40a110b71d329c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 07/59] fix: JSON rows keep their place when a key is missing,
 late or repeated

---
 mml/tools/data_loader/DataLoaderJSON.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index 014475b..0e44d6f 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -133,6 +133,7 @@ namespace MML {
 
 				std::map<std::string, std::vector<std::string>> columnData;
 				std::vector<std::string> columnOrder;
+				size_t rowCount = 0;
 
 				// Parse each object
 				while (Peek() != ']') {
@@ -174,6 +175,8 @@ namespace MML {
 								throw DataError("JSON: Unsupported value type (nested objects/arrays not supported)");
 						}
 
+						// Rows before this key first appeared are missing; a repeated key replaces its value
+						columnData[key].resize(rowCount);
 						columnData[key].push_back(value);
 					}
 
@@ -181,12 +184,9 @@ namespace MML {
 						throw DataError("JSON: Expected '}'");
 
 					// Fill missing columns with empty for this row
-					size_t maxRows = 0;
+					++rowCount;
 					for (const auto& col : columnOrder) {
-						maxRows = std::max(maxRows, columnData[col].size());
-					}
-					for (const auto& col : columnOrder) {
-						while (columnData[col].size() < maxRows)
+						while (columnData[col].size() < rowCount)
 							columnData[col].push_back("");
 					}
 				}
-- 
2.43.0


From 69005fa0cbd50de3fce495593d87e1a00532f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 08/59] fix: data set columns never truncate reals to int or
 accept partly numeric cells

---
 mml/tools/data_loader/DataLoaderParsing.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 177fd32..3ddb53b 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -56,7 +56,13 @@ namespace MML {
 
 				// Check numeric patterns FIRST (before bool, since "1"/"0" could be numeric)
 				if (std::regex_match(trimmed, intPattern)) {
-					++intCount;
+					try {
+						(void)std::stoi(trimmed);
+						++intCount;
+					}
+					catch (const std::out_of_range&) {
+						++realCount;  // does not fit an int
+					}
 					continue;
 				}
 				if (std::regex_match(trimmed, realPattern)) {
@@ -98,7 +104,7 @@ namespace MML {
 			if (dateCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::DATE;
 			if (timeCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::TIME;
 			if (boolCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::BOOL;
-			if (intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
+			if (realCount == 0 && intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
 			if ((intCount + realCount) >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::REAL;
 
 			return ColumnType::STRING;
@@ -136,12 +142,14 @@ namespace MML {
 			try {
 				switch (targetType) {
 					case ColumnType::REAL: {
-						realOut = std::stod(trimmed);
-						return ParseResult::Parsed;
+						size_t used = 0;
+						realOut = std::stod(trimmed, &used);
+						return used == trimmed.size() ? ParseResult::Parsed : ParseResult::Invalid;
 					}
 					case ColumnType::INT: {
-						intOut = std::stoi(trimmed);
-						return ParseResult::Parsed;
+						size_t used = 0;
+						intOut = std::stoi(trimmed, &used);
+						return used == trimmed.size() ? ParseResult::Parsed : ParseResult::Invalid;
 					}
 					case ColumnType::BOOL: {
 						std::string lower = trimmed;
-- 
2.43.0


From a51daf9e54bdbbbd4e8b821623330dff1c9d6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 09/59] fix: particle simulation export rejects particles with
 a shorter history

---
 mml/tools/serializer/SerializerSimulation.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 4a81d80..3bcc05b 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -52,6 +52,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
 				return {false, SerializeError::INVALID_PARAMETERS, "saveEveryNSteps must be >= 1"};
+			for (const auto& history : ballPositions)
+				if (history.size() < ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "every particle needs a position for every step"};
 
 			std::ofstream file(fileName);
 			if (!file.is_open())
@@ -125,6 +128,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
 				return {false, SerializeError::INVALID_PARAMETERS, "saveEveryNSteps must be >= 1"};
+			for (const auto& history : ballPositions)
+				if (history.size() < ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "every particle needs a position for every step"};
 
 			std::ofstream file(fileName);
 			if (!file.is_open())
-- 
2.43.0


From 23967052e37a94bfa40e0478c02f7a7a48ac1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 10/59] fix: ODE solution export writes the stored points, not
 the unused capacity

---
 mml/tools/serializer/SerializerODE.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 95bc8db..5ddf183 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -46,9 +46,9 @@ namespace MML
 
 			try
 			{
-				WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.size());
 				
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " " << sol.getXValues()[compInd][i] << std::endl;
 				}
@@ -85,9 +85,9 @@ namespace MML
 
 			try
 			{
-				WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.size());
 
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					for (int j = 0; j < sol.getSysDim(); j++)
@@ -131,9 +131,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.size());
 				
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					file << sol.getXValues()[ind1][i] << " ";
@@ -177,9 +177,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.size());
 
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					file << sol.getXValues()[ind1][i] << " ";
-- 
2.43.0


From 462628f70c6d61e16630a39d59a411dcf50adbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 11/59] fix: data set type inference does not exhaust the stack
 on long cells

---
 mml/tools/data_loader/DataLoaderParsing.h | 106 +++++++++++++++++++---
 1 file changed, 93 insertions(+), 13 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 3ddb53b..ce6f56f 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -15,13 +15,100 @@
 
 #include <algorithm>
 #include <cctype>
-#include <regex>
 #include <string>
 #include <vector>
 
 namespace MML {
 	namespace Data {
 
+		/////////////////////////////////////////////////////////////////////////////////////
+		///                              VALUE PATTERNS                                    ///
+		/////////////////////////////////////////////////////////////////////////////////////
+		// Hand-written matchers: std::regex recurses once per character and exhausts the stack on long cells.
+
+		/// @brief Advance pos over up to maxDigits decimal digits, return how many there were
+		inline size_t SkipDigits(const std::string& s, size_t& pos, size_t maxDigits = std::string::npos) {
+			size_t count = 0;
+			while (pos < s.size() && count < maxDigits && s[pos] >= '0' && s[pos] <= '9') {
+				++pos;
+				++count;
+			}
+			return count;
+		}
+
+		/// @brief Integer: [-+]?\d+
+		inline bool IsIntText(const std::string& s) {
+			size_t pos = (!s.empty() && (s[0] == '-' || s[0] == '+')) ? 1 : 0;
+			return SkipDigits(s, pos) > 0 && pos == s.size();
+		}
+
+		/// @brief Real: [-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?
+		inline bool IsRealText(const std::string& s) {
+			size_t pos = (!s.empty() && (s[0] == '-' || s[0] == '+')) ? 1 : 0;
+			size_t digits = SkipDigits(s, pos);
+			if (pos < s.size() && s[pos] == '.') {
+				++pos;
+				digits += SkipDigits(s, pos);
+			}
+			if (digits == 0) return false;
+			if (pos < s.size() && (s[pos] == 'e' || s[pos] == 'E')) {
+				++pos;
+				if (pos < s.size() && (s[pos] == '-' || s[pos] == '+')) ++pos;
+				if (SkipDigits(s, pos) == 0) return false;
+			}
+			return pos == s.size();
+		}
+
+		/// @brief Advance pos over a date: \d{4}[-/]\d{1,2}[-/]\d{1,2}
+		inline bool SkipDate(const std::string& s, size_t& pos) {
+			if (SkipDigits(s, pos, 4) != 4) return false;
+			for (int part = 0; part < 2; ++part) {
+				if (pos >= s.size() || (s[pos] != '-' && s[pos] != '/')) return false;
+				++pos;
+				if (SkipDigits(s, pos, 2) == 0) return false;
+			}
+			return true;
+		}
+
+		/// @brief Advance pos over a time of day: \d{1,2}:\d{2}(:\d{2})?
+		inline bool SkipTime(const std::string& s, size_t& pos) {
+			if (SkipDigits(s, pos, 2) == 0) return false;
+			if (pos >= s.size() || s[pos] != ':') return false;
+			++pos;
+			if (SkipDigits(s, pos, 2) != 2) return false;
+			if (pos < s.size() && s[pos] == ':') {
+				++pos;
+				if (SkipDigits(s, pos, 2) != 2) return false;
+			}
+			return true;
+		}
+
+		/// @brief Date: YYYY-MM-DD or YYYY/MM/DD
+		inline bool IsDateText(const std::string& s) {
+			size_t pos = 0;
+			return SkipDate(s, pos) && pos == s.size();
+		}
+
+		/// @brief Time: HH:MM or HH:MM:SS, optionally with a fraction
+		inline bool IsTimeText(const std::string& s) {
+			size_t pos = 0;
+			if (!SkipTime(s, pos)) return false;
+			if (pos < s.size() && s[pos] == '.') {
+				++pos;
+				if (SkipDigits(s, pos) == 0) return false;
+			}
+			return pos == s.size();
+		}
+
+		/// @brief Date and time separated by 'T' or a space
+		inline bool IsDateTimeText(const std::string& s) {
+			size_t pos = 0;
+			if (!SkipDate(s, pos)) return false;
+			if (pos >= s.size() || (s[pos] != 'T' && s[pos] != ' ')) return false;
+			++pos;
+			return SkipTime(s, pos) && pos == s.size();
+		}
+
 		/////////////////////////////////////////////////////////////////////////////////////
 		///                              TYPE INFERENCE                                    ///
 		/////////////////////////////////////////////////////////////////////////////////////
@@ -36,13 +123,6 @@ namespace MML {
 			size_t dateCount = 0, timeCount = 0, dateTimeCount = 0;
 			size_t missingCount = 0;
 
-			// Patterns
-			std::regex intPattern(R"(^[-+]?\d+$)");
-			std::regex realPattern(R"(^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$)");
-			std::regex datePattern(R"(^\d{4}[-/]\d{1,2}[-/]\d{1,2}$)");
-			std::regex timePattern(R"(^\d{1,2}:\d{2}(:\d{2})?(\.\d+)?$)");
-			std::regex dateTimePattern(R"(^\d{4}[-/]\d{1,2}[-/]\d{1,2}[T ]\d{1,2}:\d{2}(:\d{2})?$)");
-
 			for (const auto& val : values) {
 				std::string trimmed = val;
 				// Trim whitespace
@@ -55,7 +135,7 @@ namespace MML {
 				}
 
 				// Check numeric patterns FIRST (before bool, since "1"/"0" could be numeric)
-				if (std::regex_match(trimmed, intPattern)) {
+				if (IsIntText(trimmed)) {
 					try {
 						(void)std::stoi(trimmed);
 						++intCount;
@@ -65,7 +145,7 @@ namespace MML {
 					}
 					continue;
 				}
-				if (std::regex_match(trimmed, realPattern)) {
+				if (IsRealText(trimmed)) {
 					++realCount;
 					continue;
 				}
@@ -80,15 +160,15 @@ namespace MML {
 				}
 
 				// Check date/time patterns
-				if (std::regex_match(trimmed, dateTimePattern)) {
+				if (IsDateTimeText(trimmed)) {
 					++dateTimeCount;
 					continue;
 				}
-				if (std::regex_match(trimmed, datePattern)) {
+				if (IsDateText(trimmed)) {
 					++dateCount;
 					continue;
 				}
-				if (std::regex_match(trimmed, timePattern)) {
+				if (IsTimeText(trimmed)) {
 					++timeCount;
 					continue;
 				}
-- 
2.43.0


From 88983a00236e9244b0a6dbf8d44ebaa9b14e7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 12/59] fix: JSON strings decode unicode, backspace and form
 feed escapes

---
 mml/tools/data_loader/DataLoaderJSON.h | 55 ++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index 0e44d6f..d7e346b 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -53,6 +53,58 @@ namespace MML {
 				return pos < json.size() ? json[pos++] : '\0';
 			}
 
+			/// @brief Parse the four hex digits of a \uXXXX escape
+			unsigned ParseHex4() {
+				unsigned value = 0;
+				for (int i = 0; i < 4; ++i) {
+					char c = pos < json.size() ? json[pos++] : '\0';
+					if (c >= '0' && c <= '9') value = value * 16 + (c - '0');
+					else if (c >= 'a' && c <= 'f') value = value * 16 + (c - 'a' + 10);
+					else if (c >= 'A' && c <= 'F') value = value * 16 + (c - 'A' + 10);
+					else throw DataError("JSON: Invalid \\u escape");
+				}
+				return value;
+			}
+
+			/// @brief Parse the rest of a \uXXXX escape, combining surrogate pairs
+			unsigned ParseCodePoint() {
+				unsigned code = ParseHex4();
+				if (code >= 0xDC00 && code <= 0xDFFF)
+					throw DataError("JSON: Unpaired surrogate in \\u escape");
+				if (code >= 0xD800 && code <= 0xDBFF) {
+					if (json.compare(pos, 2, "\\u") != 0)
+						throw DataError("JSON: Unpaired surrogate in \\u escape");
+					pos += 2;
+					unsigned low = ParseHex4();
+					if (low < 0xDC00 || low > 0xDFFF)
+						throw DataError("JSON: Unpaired surrogate in \\u escape");
+					code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+				}
+				return code;
+			}
+
+			/// @brief Append a Unicode code point as UTF-8
+			static void AppendUtf8(std::string& out, unsigned code) {
+				if (code < 0x80) {
+					out += static_cast<char>(code);
+				}
+				else if (code < 0x800) {
+					out += static_cast<char>(0xC0 | (code >> 6));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+				else if (code < 0x10000) {
+					out += static_cast<char>(0xE0 | (code >> 12));
+					out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+				else {
+					out += static_cast<char>(0xF0 | (code >> 18));
+					out += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+					out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+					out += static_cast<char>(0x80 | (code & 0x3F));
+				}
+			}
+
 			std::string ParseString() {
 				if (Get() != '"')
 					throw DataError("JSON: Expected '\"'");
@@ -70,6 +122,9 @@ namespace MML {
 							case '"': result += '"'; break;
 							case '\\': result += '\\'; break;
 							case '/': result += '/'; break;
+							case 'b': result += '\b'; break;
+							case 'f': result += '\f'; break;
+							case 'u': AppendUtf8(result, ParseCodePoint()); break;
 							default: result += esc; break;
 						}
 					}
-- 
2.43.0


From b43a1d8f749ada97d9bef22560bb833a6d9ac06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 13/59] fix: algorithm timers use the monotonic clock, not the
 wall clock

---
 mml/core/AlgorithmTypes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/core/AlgorithmTypes.h b/mml/core/AlgorithmTypes.h
index 3ab8118..79eb2b8 100644
--- a/mml/core/AlgorithmTypes.h
+++ b/mml/core/AlgorithmTypes.h
@@ -285,22 +285,22 @@ namespace MML {
 	/// }
 	class AlgorithmTimer {
 	public:
-		AlgorithmTimer() : start_(std::chrono::high_resolution_clock::now()) {}
+		AlgorithmTimer() : start_(std::chrono::steady_clock::now()) {}
 		
 		/// Get elapsed time since construction in milliseconds
 		[[nodiscard]] double elapsed_ms() const {
-			auto now = std::chrono::high_resolution_clock::now();
+			auto now = std::chrono::steady_clock::now();
 			auto duration = std::chrono::duration_cast<std::chrono::microseconds>(now - start_);
 			return static_cast<double>(duration.count()) / 1000.0;
 		}
 		
 		/// Reset the timer to current time
 		void reset() {
-			start_ = std::chrono::high_resolution_clock::now();
+			start_ = std::chrono::steady_clock::now();
 		}
 		
 	private:
-		std::chrono::time_point<std::chrono::high_resolution_clock> start_;
+		std::chrono::time_point<std::chrono::steady_clock> start_;
 	};
 
 	/******************************************************************************/
-- 
2.43.0


From 230643c74f88c19f47b5088dbaf96d75774053db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 14/59] fix: root finding and shooting results report the time
 they took

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h |  6 ++++
 .../RootFinding/RootFindingBracketing.h       | 12 +++++++
 .../RootFinding/RootFindingMethods.h          | 31 +++++++++++++++++++
 3 files changed, 49 insertions(+)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 15d537a..4466201 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -167,6 +167,7 @@ namespace MML {
 		/// @return BVPShootingResult with solution and convergence info
 		BVPShootingResult solve1D(Real t0, Real t1, const Vector<Real>& knownInitCond, int shootingIndex, int targetIndex, Real targetValue,
 								  Real shootGuess1, Real shootGuess2) {
+			AlgorithmTimer timer;
 			BVPShootingResult result;
 
 			// Create the "defect function" that measures boundary condition error
@@ -203,6 +204,7 @@ namespace MML {
 						std::to_string(shootGuess1) + ", " + std::to_string(shootGuess2) + 
 						"] even after expanding range";
 					result.residual = std::numeric_limits<Real>::max();
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -230,6 +232,7 @@ namespace MML {
 				result.residual = std::numeric_limits<Real>::max();
 			}
 
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
@@ -422,6 +425,7 @@ namespace MML {
 		/// @param config       Shooting configuration
 		/// @return ShootingResultND
 		ShootingResultND solve(Real t0, Real t1, const Vector<Real>& knownInitCond, const ShootingConfig& config) {
+			AlgorithmTimer timer;
 			ShootingResultND result;
 
 			if (!config.isValid()) {
@@ -429,6 +433,7 @@ namespace MML {
 				result.failureReason = BVPFailureReason::InvalidConfiguration;
 				result.failureDetails = "Shooting configuration invalid: unknownIndices, targetIndices, "
 					"unknownGuesses, and targetValues must all have same non-zero size";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
@@ -530,6 +535,7 @@ namespace MML {
 			ODESystemFixedStepSolver solver(_system, _stepCalc);
 			result.solution = solver.integrate(initCond, t0, t1, _numSteps);
 
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 1998ab0..0946a4c 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -259,6 +259,7 @@ namespace MML {
 		/// }
 		static RootFindingResult FindRootBisection(const IRealFunction& func, Real x1, Real x2, 
 												   const RootFindingConfig& config) {
+			AlgorithmTimer timer;
 			RootFindingResult result;
 			Real dx, xmid, rtb;
 
@@ -268,11 +269,13 @@ namespace MML {
 			// Check for non-finite initial values using shared validation helper
 			if (!IsFunctionValueValid(f) || !IsFunctionValueValid(fmid)) {
 				result.error_message = "Non-finite function values in FindRootBisection";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
 			if (f * fmid >= 0.0) {
 				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
@@ -298,6 +301,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
 					result.error_message = "Non-finite function value in FindRootBisection iteration";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -315,6 +319,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(dx);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 			}
@@ -324,6 +329,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Too many bisections in FindRootBisection";
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
@@ -399,16 +405,19 @@ namespace MML {
 		/// Find root using false position method with configurable parameters.
 		static RootFindingResult FindRootFalsePosition(const IRealFunction& func, Real x1, Real x2,
 													   const RootFindingConfig& config) {
+			AlgorithmTimer timer;
 			RootFindingResult result;
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootFalsePosition";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
 				result.error_message = "Root must be bracketed for false position";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
@@ -430,6 +439,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootFalsePosition";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -452,6 +462,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(x2 - x1);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 			}
@@ -461,6 +472,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
 			result.error_message = "Maximum number of iterations exceeded in FindRootFalsePosition";
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 65d2555..46ef883 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -141,12 +141,14 @@ namespace MML {
 		/// @return RootFindingResult with root value and convergence diagnostics
 		static RootFindingResult FindRootNewton(const IRealFunction& func, Real x1, Real x2,
 												const RootFindingConfig& config) {
+			AlgorithmTimer timer;
 			RootFindingResult result;
 
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 			if (f1 * f2 > 0.0) {
 				result.error_message = "Root must be bracketed for Newton-Raphson method";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
@@ -164,6 +166,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite derivative in FindRootNewton";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 				Real dfThreshold = std::sqrt(Real(Constants::Eps));
@@ -172,6 +175,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Zero or near-zero derivative in FindRootNewton";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -183,6 +187,7 @@ namespace MML {
 					result.function_value = f;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite step in FindRootNewton";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -199,6 +204,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
 					result.error_message = "Jumped out of brackets in FindRootNewton";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -208,6 +214,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(dx);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 			}
@@ -217,6 +224,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Maximum number of iterations exceeded in FindRootNewton";
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
@@ -296,17 +304,20 @@ namespace MML {
 		/// Find root using secant method with configurable parameters.
 		static RootFindingResult FindRootSecant(const IRealFunction& func, Real x1, Real x2,
 												const RootFindingConfig& config) {
+			AlgorithmTimer timer;
 			RootFindingResult result;
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootSecant";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
 			if (f1 * f2 > 0.0) {
 				result.error_message = "Root must be bracketed for Secant method";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
@@ -326,6 +337,7 @@ namespace MML {
 					result.function_value = f2;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite step in FindRootSecant";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -339,6 +351,7 @@ namespace MML {
 					result.function_value = f2;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootSecant";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -353,6 +366,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(dx);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 			}
@@ -362,6 +376,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
 			result.error_message = "Maximum number of iterations exceeded in FindRootSecant";
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
@@ -449,16 +464,19 @@ namespace MML {
 		/// Find root using Ridders' method with configurable parameters.
 		static RootFindingResult FindRootRidders(const IRealFunction& func, Real x1, Real x2,
 												 const RootFindingConfig& config) {
+			AlgorithmTimer timer;
 			RootFindingResult result;
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
 				result.error_message = "Non-finite function values in FindRootRidders";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
 				result.error_message = "Root must be bracketed for Ridders method";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
@@ -474,6 +492,7 @@ namespace MML {
 					result.function_value = fm;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootRidders";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -484,6 +503,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(x2 - x1);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -495,6 +515,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(xnew - ans);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -506,6 +527,7 @@ namespace MML {
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
 					result.error_message = "Non-finite function value in FindRootRidders";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -520,6 +542,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(fnew);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -543,6 +566,7 @@ namespace MML {
 					result.iterations_used = j + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(x2 - x1);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 			}
@@ -552,6 +576,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
 			result.error_message = "Maximum number of iterations exceeded in FindRootRidders";
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
@@ -655,16 +680,19 @@ namespace MML {
 		/// @return RootFindingResult with root value and convergence diagnostics
 		static RootFindingResult FindRootBrent(const IRealFunction& func, Real x1, Real x2,
 											   const RootFindingConfig& config) {
+			AlgorithmTimer timer;
 			RootFindingResult result;
 			Real a = x1, b = x2, c = x2, d = 0.0, e = 0.0;
 			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm;
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
 				result.error_message = "Non-finite function values in FindRootBrent";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 			if (fa * fb >= 0.0) {
 				result.error_message = "Root must be bracketed for Brent method";
+				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			}
 
@@ -700,6 +728,7 @@ namespace MML {
 					result.iterations_used = iter + 1;
 					result.converged = true;
 					result.achieved_tolerance = std::abs(xm);
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 
@@ -746,6 +775,7 @@ namespace MML {
 					result.function_value = fb;
 					result.iterations_used = iter + 1;
 					result.error_message = "Non-finite function value in FindRootBrent";
+					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				}
 			}
@@ -755,6 +785,7 @@ namespace MML {
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(xm);
 			result.error_message = "Maximum number of iterations exceeded in FindRootBrent";
+			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
 
-- 
2.43.0


From 05306e5edd2ab7dc8624d03c680e4cacf5df7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:14 +0000
Subject: [PATCH 15/59] fix: bind the Defaults references to each thread's own
 context

Defaults::VectorPrintWidth and friends were references bound once, by whichever thread ran the static initialisers, to that
thread's thread_local context. Every other thread read and changed the first thread's settings (a data race) and never saw
changes it made through AlgorithmContext/PrintContext.
---
 mml/MMLBase.h | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/mml/MMLBase.h b/mml/MMLBase.h
index 8902015..04c7ec4 100644
--- a/mml/MMLBase.h
+++ b/mml/MMLBase.h
@@ -239,10 +239,10 @@ namespace MML {
 	namespace Defaults {
 		// Output defaults (thread-safe - changed from static globals to thread_local)
 		// Usage: Defaults::VectorPrintWidth = 20; (now thread-safe!)
-		static inline int& VectorPrintWidth = PrintContext::Get().vectorWidth;
-		static inline int& VectorPrintPrecision = PrintContext::Get().vectorPrecision;
-		static inline int& VectorNPrintWidth = PrintContext::Get().vectorNWidth;
-		static inline int& VectorNPrintPrecision = PrintContext::Get().vectorNPrecision;
+		static inline thread_local int& VectorPrintWidth = PrintContext::Get().vectorWidth;
+		static inline thread_local int& VectorPrintPrecision = PrintContext::Get().vectorPrecision;
+		static inline thread_local int& VectorNPrintWidth = PrintContext::Get().vectorNWidth;
+		static inline thread_local int& VectorNPrintPrecision = PrintContext::Get().vectorNPrecision;
 
 		//////////               Default precisions             ///////////
 		// Use the precision values based on the Real type
@@ -297,22 +297,22 @@ namespace MML {
 		// Algorithm parameters (thread-safe - changed from static constants to
 		// thread_local) Usage: Defaults::TrapezoidIntegrationEPS = 1e-6; (now
 		// thread-safe and mutable!)
-		static inline Real& TrapezoidIntegrationEPS = AlgorithmContext::Get().trapezoidIntegrationEPS;
-		static inline Real& SimpsonIntegrationEPS = AlgorithmContext::Get().simpsonIntegrationEPS;
-		static inline Real& RombergIntegrationEPS = AlgorithmContext::Get().rombergIntegrationEPS;
-		static inline Real& WorkIntegralPrecision = AlgorithmContext::Get().workIntegralPrecision;
-		static inline Real& LineIntegralPrecision = AlgorithmContext::Get().lineIntegralPrecision;
-
-		static inline int& BisectionMaxSteps = AlgorithmContext::Get().bisectionMaxSteps;
-		static inline int& NewtonRaphsonMaxSteps = AlgorithmContext::Get().newtonRaphsonMaxSteps;
-		static inline int& BrentMaxSteps = AlgorithmContext::Get().brentMaxSteps;
-
-		static inline int& TrapezoidIntegrationMaxSteps = AlgorithmContext::Get().trapezoidIntegrationMaxSteps;
-		static inline int& SimpsonIntegrationMaxSteps = AlgorithmContext::Get().simpsonIntegrationMaxSteps;
-		static inline int& RombergIntegrationMaxSteps = AlgorithmContext::Get().rombergIntegrationMaxSteps;
-		static inline int& RombergIntegrationUsedPnts = AlgorithmContext::Get().rombergIntegrationUsedPnts;
-
-		static inline int& ODESolverMaxSteps = AlgorithmContext::Get().odeSolverMaxSteps;
+		static inline thread_local Real& TrapezoidIntegrationEPS = AlgorithmContext::Get().trapezoidIntegrationEPS;
+		static inline thread_local Real& SimpsonIntegrationEPS = AlgorithmContext::Get().simpsonIntegrationEPS;
+		static inline thread_local Real& RombergIntegrationEPS = AlgorithmContext::Get().rombergIntegrationEPS;
+		static inline thread_local Real& WorkIntegralPrecision = AlgorithmContext::Get().workIntegralPrecision;
+		static inline thread_local Real& LineIntegralPrecision = AlgorithmContext::Get().lineIntegralPrecision;
+
+		static inline thread_local int& BisectionMaxSteps = AlgorithmContext::Get().bisectionMaxSteps;
+		static inline thread_local int& NewtonRaphsonMaxSteps = AlgorithmContext::Get().newtonRaphsonMaxSteps;
+		static inline thread_local int& BrentMaxSteps = AlgorithmContext::Get().brentMaxSteps;
+
+		static inline thread_local int& TrapezoidIntegrationMaxSteps = AlgorithmContext::Get().trapezoidIntegrationMaxSteps;
+		static inline thread_local int& SimpsonIntegrationMaxSteps = AlgorithmContext::Get().simpsonIntegrationMaxSteps;
+		static inline thread_local int& RombergIntegrationMaxSteps = AlgorithmContext::Get().rombergIntegrationMaxSteps;
+		static inline thread_local int& RombergIntegrationUsedPnts = AlgorithmContext::Get().rombergIntegrationUsedPnts;
+
+		static inline thread_local int& ODESolverMaxSteps = AlgorithmContext::Get().odeSolverMaxSteps;
 	} // namespace Defaults
 } // namespace MML
 #endif
-- 
2.43.0


From 286ef23f98a984b567411391941b6c57b4680e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 16/59] fix: Timer::MarkTime keeps names and times together
 when memory runs out

---
 mml/tools/Timer.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mml/tools/Timer.h b/mml/tools/Timer.h
index a2cb580..fc8015f 100644
--- a/mml/tools/Timer.h
+++ b/mml/tools/Timer.h
@@ -72,8 +72,7 @@ namespace MML
 		/// @brief Record a time mark with default name
 		void MarkTime()
 		{
-			_markedNames.push_back("Unnamed Mark");
-			_markedTimes.push_back(std::chrono::steady_clock::now());
+			MarkTime("Unnamed Mark");
 		}
 		
 		/// @brief Record a time mark with the given name
@@ -81,7 +80,13 @@ namespace MML
 		void MarkTime(const std::string& name)
 		{
 			_markedNames.push_back(name);
-			_markedTimes.push_back(std::chrono::steady_clock::now());
+			try {
+				_markedTimes.push_back(std::chrono::steady_clock::now());
+			}
+			catch (...) {
+				_markedNames.pop_back();  // a mark has both a name and a time, or does not exist
+				throw;
+			}
 		}
 		
 		/// @brief Get the time interval for a specific mark
-- 
2.43.0


From 615854de54ef00a5b7a36c9024be622520809b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 17/59] fix: detailed integration honours check_finite

A non-finite integral was reported with status Success although the configuration promises a finiteness check.
---
 mml/core/Integration/IntegrationBase.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mml/core/Integration/IntegrationBase.h b/mml/core/Integration/IntegrationBase.h
index 5659373..b7f9576 100644
--- a/mml/core/Integration/IntegrationBase.h
+++ b/mml/core/Integration/IntegrationBase.h
@@ -3,6 +3,7 @@
 
 #include "MMLBase.h"
 #include "core/AlgorithmTypes.h"
+#include "core/NumericValidation.h"
 
 namespace MML
 {
@@ -70,6 +71,8 @@ namespace MML
 				AlgorithmTimer timer;
 				ResultType result = MakeEvaluationSuccessResult<ResultType>(algorithm_name);
 				compute(result);
+				if (config.check_finite && !IsFinite(result.value))
+					throw NumericalMethodError(std::string(algorithm_name) + ": non-finite integral value");
 				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			};
@@ -84,6 +87,10 @@ namespace MML
 				return MakeEvaluationFailureResult<ResultType>(
 					AlgorithmStatus::InvalidInput, ex.what(), algorithm_name);
 			}
+			catch (const NumericalMethodError& ex) {
+				return MakeEvaluationFailureResult<ResultType>(
+					AlgorithmStatus::NumericalInstability, ex.what(), algorithm_name);
+			}
 			catch (const std::exception& ex) {
 				return MakeEvaluationFailureResult<ResultType>(
 					AlgorithmStatus::AlgorithmSpecificFailure, ex.what(), algorithm_name);
-- 
2.43.0


From c90815ea5edd3655fe50ef7fd85110c6af89be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 18/59] fix: detailed field operations honour check_finite

---
 mml/core/FieldOperations.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mml/core/FieldOperations.h b/mml/core/FieldOperations.h
index b8cffe5..e9eb2f7 100644
--- a/mml/core/FieldOperations.h
+++ b/mml/core/FieldOperations.h
@@ -134,6 +134,17 @@ namespace MML
 
 	namespace FieldOperationDetail
 	{
+		/// True if every component of a field operation's value is finite.
+		inline bool IsFiniteFieldValue(Real value) { return std::isfinite(value); }
+
+		template<int N>
+		bool IsFiniteFieldValue(const VectorN<Real, N>& value) {
+			for (int i = 0; i < N; i++)
+				if (!std::isfinite(value[i]))
+					return false;
+			return true;
+		}
+
 		/// Execute a field operation with structured result reporting.
 		///
 		/// Wraps the raw computation in timing, finiteness checking, and
@@ -155,6 +166,9 @@ namespace MML
 				compute(result, func_evals);
 				result.function_evaluations = func_evals;
 
+				if (config.check_finite && !IsFiniteFieldValue(result.value))
+					throw NumericalMethodError(std::string(algorithm_name) + ": non-finite result");
+
 				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			};
-- 
2.43.0


From b4fb13274c0af35bb2645087cd9cd5998faffa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 19/59] fix: eigen solvers do not report convergence with
 non-finite eigenvalues

---
 mml/algorithms/EigenSystemSolvers.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 5ca1cec..ab7952a 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -193,6 +193,9 @@ namespace MML {
 			result.iterations = sweep;
 			result.residual = offDiagNorm;
 			result.converged = (offDiagNorm <= tol);
+			for (int i = 0; i < n; i++)
+				if (!std::isfinite(result.eigenvalues[i]))
+					result.converged = false;
 
 			return result;
 		}
@@ -395,7 +398,7 @@ namespace MML {
 			if (n == 1) {
 				result.eigenvalues[0] = A(0, 0);
 				result.eigenvectors(0, 0) = 1.0;
-				result.converged = true;
+				result.converged = std::isfinite(A(0, 0));
 				return result;
 			}
 
@@ -438,6 +441,10 @@ namespace MML {
 			// Step 7: Sort eigenvalues and eigenvectors in ascending order
 			SortEigenpairs(result.eigenvalues, result.eigenvectors, n);
 
+			for (int i = 0; i < n; i++)
+				if (!std::isfinite(result.eigenvalues[i]))
+					result.converged = false;
+
 			return result;
 		}
 
@@ -878,7 +885,7 @@ namespace MML {
 				result.eigenvalues.push_back(ComplexEigenvalue(A(0, 0), 0.0));
 				result.eigenvectors(0, 0) = 1.0;
 				result.isComplexPair.push_back(false);
-				result.converged = true;
+				result.converged = std::isfinite(A(0, 0));
 				return result;
 			}
 
@@ -998,6 +1005,9 @@ namespace MML {
 			result.iterations = totalIter;
 			result.maxResidual = 0.0;
 			result.converged = (totalIter < maxIter);
+			for (const auto& e : result.eigenvalues)
+				if (!std::isfinite(e.real) || !std::isfinite(e.imag))
+					result.converged = false;
 
 			// Verify eigenvector quality
 			for (size_t i = 0; i < result.eigenvalues.size(); i++) {
-- 
2.43.0


From 3cdbc3a2c8b726ac2289798b4d45388e638d8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 20/59] fix: adaptive Gauss-Kronrod stops after a bounded
 number of evaluations and never converges to NaN

---
 mml/core/Integration/GaussKronrod.h | 50 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 059364f..161b146 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -343,43 +343,53 @@ namespace MML {
 		/// @brief Rule selection for adaptive Gauss-Kronrod
 		enum class GKRule { GK15, GK21, GK31 };
 
-		/// @brief Adaptive Gauss-Kronrod integration with automatic subdivision.
-		/// @details Uses recursive bisection when local error exceeds tolerance.
-		///          This is the standard approach used by QUADPACK/GSL.
-		/// @tparam Func Callable with signature Real(Real)
-		/// @param f Function to integrate
-		/// @param a Lower limit
-		/// @param b Upper limit
-		/// @param tol_abs Absolute error tolerance (default 1e-10)
-		/// @param tol_rel Relative error tolerance (default 1e-10)
-		/// @param max_depth Maximum recursion depth (default 50)
-		/// @param rule Which Gauss-Kronrod rule to use (default GK15)
-		/// @return GKResult with integral and accumulated error estimate
+		/// @brief Recursive helper for adaptive Gauss-Kronrod integration
+		/// @param evals_remaining Budget for function evaluations, shared by the whole recursion
 		template<typename Func>
-		static GKResult IntegrateGKAdaptive(Func f, Real a, Real b, Real tol_abs = 1e-10, Real tol_rel = 1e-10, int max_depth = 50,
-																				GKRule rule = GKRule::GK15) {
+		static GKResult IntegrateGKAdaptive_Recursive(Func f, Real a, Real b, Real tol_abs, Real tol_rel, int max_depth,
+																									GKRule rule, int& evals_remaining) {
 			// Apply basic rule first
 			GKResult local = (rule == GKRule::GK15)		? IntegrateGK15(f, a, b)
 											 : (rule == GKRule::GK21) ? IntegrateGK21(f, a, b)
 																								: IntegrateGK31(f, a, b);
 
 			Real tolerance = std::max(tol_abs, tol_rel * std::abs(local.value));
+			evals_remaining -= local.function_evals;
 
-			// Check if we meet tolerance or hit max depth
-			if (local.error_estimate <= tolerance || max_depth <= 0) {
-				local.converged = (local.error_estimate <= tolerance);
+			// Check if we meet tolerance, hit max depth or used up the evaluation budget
+			local.converged = std::isfinite(local.value) && local.error_estimate <= tolerance;
+			if (local.converged || max_depth <= 0 || evals_remaining <= 0)
 				return local;
-			}
 
 			// Subdivide and recurse
 			Real mid = 0.5 * (a + b);
-			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
-			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
+			GKResult left = IntegrateGKAdaptive_Recursive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule, evals_remaining);
+			GKResult right = IntegrateGKAdaptive_Recursive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule, evals_remaining);
 
 			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, left.function_evals + right.function_evals,
 											left.converged && right.converged);
 		}
 
+		/// @brief Adaptive Gauss-Kronrod integration with automatic subdivision.
+		/// @details Uses recursive bisection when local error exceeds tolerance.
+		///          This is the standard approach used by QUADPACK/GSL.
+		/// @tparam Func Callable with signature Real(Real)
+		/// @param f Function to integrate
+		/// @param a Lower limit
+		/// @param b Upper limit
+		/// @param tol_abs Absolute error tolerance (default 1e-10)
+		/// @param tol_rel Relative error tolerance (default 1e-10)
+		/// @param max_depth Maximum recursion depth (default 50)
+		/// @param rule Which Gauss-Kronrod rule to use (default GK15)
+		/// @param max_evals Function evaluation budget (default 1000000, as in the 2D variant)
+		/// @return GKResult with integral and accumulated error estimate
+		template<typename Func>
+		static GKResult IntegrateGKAdaptive(Func f, Real a, Real b, Real tol_abs = 1e-10, Real tol_rel = 1e-10, int max_depth = 50,
+																				GKRule rule = GKRule::GK15, int max_evals = 1000000) {
+			int evals_remaining = max_evals;
+			return IntegrateGKAdaptive_Recursive(f, a, b, tol_abs, tol_rel, max_depth, rule, evals_remaining);
+		}
+
 		/*************************************************************************/
 		/*****                    CONVENIENCE FUNCTIONS                      *****/
 		/*************************************************************************/
-- 
2.43.0


From faec259d11784e5998fc264f7095e3c5c7d026b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 21/59] fix: Romberg and open quadrature do not converge on
 non-finite values

---
 mml/core/Integration/Integration1D.h       | 2 +-
 mml/core/Integration/IntegrationImproper.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/core/Integration/Integration1D.h b/mml/core/Integration/Integration1D.h
index e86984d..4030272 100644
--- a/mml/core/Integration/Integration1D.h
+++ b/mml/core/Integration/Integration1D.h
@@ -287,7 +287,7 @@ namespace MML
 				
 				// Check for convergence (with absolute tolerance floor for near-zero integrals)
 				const Real abs_tol = eps * std::numeric_limits<Real>::epsilon();
-				if (std::abs(dss) <= eps * std::abs(ss) + abs_tol)
+				if (std::isfinite(ss) && std::abs(dss) <= eps * std::abs(ss) + abs_tol)
 				{
 					return IntegrationResult(ss, std::abs(dss), j + 1, true);
 				}
diff --git a/mml/core/Integration/IntegrationImproper.h b/mml/core/Integration/IntegrationImproper.h
index 9ebdd23..fafc748 100644
--- a/mml/core/Integration/IntegrationImproper.h
+++ b/mml/core/Integration/IntegrationImproper.h
@@ -184,7 +184,7 @@ namespace MML
 					ss += dss;
 				}
 				
-				if (std::abs(dss) <= eps * std::abs(ss) || (ss == 0.0 && dss == 0.0))
+				if (std::isfinite(ss) && (std::abs(dss) <= eps * std::abs(ss) || (ss == 0.0 && dss == 0.0)))
 					return IntegrationResult(ss, std::abs(dss), j + 1, true);
 			}
 			
-- 
2.43.0


From c3c3ab2fc8f96c3a60c64ed9079a864c2f3e98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 22/59] fix: adaptive 2D and 3D quadrature do not converge on
 non-finite values

---
 mml/core/Integration/Integration2DAdaptive.h | 4 ++--
 mml/core/Integration/Integration3DAdaptive.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/core/Integration/Integration2DAdaptive.h b/mml/core/Integration/Integration2DAdaptive.h
index 5e3a4e5..fa44b8c 100644
--- a/mml/core/Integration/Integration2DAdaptive.h
+++ b/mml/core/Integration/Integration2DAdaptive.h
@@ -262,8 +262,8 @@ static AdaptiveResult2D IntegrateAdaptive2D_Recursive(
                               std::numeric_limits<Real>::min()});
 
     // Check convergence
-    if (cell_result.error_estimate <= cell_tol || depth >= max_depth || evals_remaining <= 0) {
-        bool conv = (cell_result.error_estimate <= cell_tol);
+    bool conv = std::isfinite(cell_result.value) && cell_result.error_estimate <= cell_tol;
+    if (conv || depth >= max_depth || evals_remaining <= 0) {
         return AdaptiveResult2D(cell_result.value, cell_result.error_estimate,
                                  cell_result.function_evals, 0, depth, conv);
     }
diff --git a/mml/core/Integration/Integration3DAdaptive.h b/mml/core/Integration/Integration3DAdaptive.h
index d2754cd..64d3d65 100644
--- a/mml/core/Integration/Integration3DAdaptive.h
+++ b/mml/core/Integration/Integration3DAdaptive.h
@@ -272,8 +272,8 @@ static AdaptiveResult3D IntegrateAdaptive3D_Recursive(
     Real cell_tol = std::max(tol_abs * volume_fraction, tol_rel * std::abs(cell_result.value));
 
     // Check convergence
-    if (cell_result.error_estimate <= cell_tol || depth >= max_depth || evals_remaining <= 0) {
-        bool conv = (cell_result.error_estimate <= cell_tol);
+    bool conv = std::isfinite(cell_result.value) && cell_result.error_estimate <= cell_tol;
+    if (conv || depth >= max_depth || evals_remaining <= 0) {
         return AdaptiveResult3D(cell_result.value, cell_result.error_estimate,
                                  cell_result.function_evals, 0, depth, conv);
     }
-- 
2.43.0


From 13178ef7a0f3e9a60531d813ad20e4a3f0981f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 23/59] fix: minimisers do not converge to non-finite points;
 golden section and line searches are bounded

---
 mml/algorithms/Optimization.h         | 15 +++++++++------
 mml/algorithms/OptimizationMultidim.h | 19 +++++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index b8d647f..467ca25 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -350,12 +350,13 @@ namespace MML {
 		/// @param func    Real function to minimize
 		/// @param bracket Pre-computed bracket from BracketMinimum
 		/// @param tol     Fractional tolerance (default: 3e-8, ≈ √(machine epsilon))
+		/// @param maxIter Maximum number of iterations; the result is not converged when it is reached
 		/// @return MinimizationResult with xmin, fmin, and iteration count
 		///
 		/// @note Based on Numerical Recipes §10.2
 		/// @see BracketMinimum to obtain initial bracket
 		/// @see BrentMinimize for typically faster convergence
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, const MinimumBracket& bracket, Real tol = 3.0e-8, int maxIter = 10000) {
 			// Input validation
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			if (!bracket.valid) {
@@ -387,6 +388,8 @@ namespace MML {
 
 			// Main iteration loop
 			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
+				if (result.iterations >= maxIter)
+					break;
 				result.iterations++;
 
 				if (f2 < f1) {
@@ -415,7 +418,7 @@ namespace MML {
 				result.fmin = f2;
 			}
 
-			result.converged = true;
+			result.converged = std::abs(x3 - x0) <= tol * (std::abs(x1) + std::abs(x2)) && std::isfinite(result.xmin) && std::isfinite(result.fmin);
 			return result;
 		}
 
@@ -426,13 +429,13 @@ namespace MML {
 		/// @param b     Initial right search bound
 		/// @param tol   Fractional tolerance
 		/// @return MinimizationResult with xmin, fmin, and iteration count
-		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, Real a, Real b, Real tol = 3.0e-8) {
+		static MinimizationResult GoldenSectionSearch(const IRealFunction& func, Real a, Real b, Real tol = 3.0e-8, int maxIter = 10000) {
 			// Input validation (bounds validated in BracketMinimum, tolerance here)
 			ValidateTolerance(tol, "GoldenSectionSearch");
 			MinimumBracket bracket = BracketMinimum(func, a, b);
 			if (!bracket.valid)
 				throw OptimizationError("Failed to bracket minimum in GoldenSectionSearch");
-			return GoldenSectionSearch(func, bracket, tol);
+			return GoldenSectionSearch(func, bracket, tol, maxIter);
 		}
 
 		/*********************************************************************/
@@ -532,7 +535,7 @@ namespace MML {
 				if (std::abs(x - xm) <= (tol2 - 0.5 * (b - a))) {
 					result.xmin = x;
 					result.fmin = fx;
-					result.converged = true;
+					result.converged = std::isfinite(x) && std::isfinite(fx);
 					return result;
 				}
 
@@ -913,7 +916,7 @@ namespace MML {
 		                                               const Minimization1DConfig& config) {
 			AlgorithmTimer timer;  // Starts automatically
 
-			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance);
+			MinimizationResult result = GoldenSectionSearch(func, a, b, config.tolerance, config.max_iterations);
 			result.algorithm_name = "GoldenSection";
 			result.elapsed_time_ms = timer.elapsed_ms();
 
diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 864c2e8..f3f420e 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -128,12 +128,17 @@ namespace MML::Optimization {
 			, iterations(0)
 			, converged(false) {}
 
+		// A point or value that is not finite is never a converged minimum.
 		MultidimMinimizationResult(const Vector<Real>& x, Real f, int iter, bool conv)
 			: xmin(x)
 			, fmin(f)
 			, iterations(iter)
-			, converged(conv)
-			, function_evaluations(iter) {}
+			, converged(conv && std::isfinite(f))
+			, function_evaluations(iter) {
+			for (int i = 0; i < xmin.size(); i++)
+				if (!std::isfinite(xmin[i]))
+					converged = false;
+		}
 	};
 
 	///////////////////////////////////////////////////////////////////////////
@@ -1333,6 +1338,7 @@ namespace MML::Optimization {
 								 VectorN<Real, N>& xi, Real stpmax) {
 			const Real ALF = 1.0e-4;   // Ensures sufficient decrease
 			const Real TOLX = 1.0e-12; // Convergence criterion on x
+			const int MAX_BACKTRACK = 1000; // Non-finite values must not keep the search going
 
 			// Scale if step is too big
 			Real sum = 0.0;
@@ -1373,14 +1379,14 @@ namespace MML::Optimization {
 			Real f = func(p);
 			Real alam2 = 0.0, f2 = 0.0;
 
-			for (;;) {
+			for (int step = 0;; ++step) {
 				VectorN<Real, N> pnew;
 				for (int j = 0; j < N; ++j)
 					pnew[j] = p[j] + alam * xi[j];
 
 				Real fnew = func(pnew);
 
-				if (alam < alamin) {
+				if (alam < alamin || !std::isfinite(alam) || step >= MAX_BACKTRACK) {
 					// Convergence on delta x
 					for (int j = 0; j < N; ++j)
 						p[j] = pnew[j];
@@ -1837,6 +1843,7 @@ namespace MML::Optimization {
 		                               Real stpmax) {
 			const Real ALF = 1.0e-4;
 			const Real TOLX = 1.0e-12;
+			const int MAX_BACKTRACK = 1000; // Non-finite values must not keep the search going
 
 			// Scale if step is too big
 			Real sum = 0.0;
@@ -1877,14 +1884,14 @@ namespace MML::Optimization {
 			Real f = func(x);
 			Real alam2 = 0.0, f2 = 0.0;
 
-			for (;;) {
+			for (int step = 0;; ++step) {
 				VectorN<Real, N> xnew;
 				for (int j = 0; j < N; ++j)
 					xnew[j] = x[j] + alam * p[j];
 
 				Real fnew = func(xnew);
 
-				if (alam < alamin) {
+				if (alam < alamin || !std::isfinite(alam) || step >= MAX_BACKTRACK) {
 					for (int j = 0; j < N; ++j)
 						x[j] = xnew[j];
 					return fnew;
-- 
2.43.0


From 0bad6c0ea3566fca29d6bff7a5fb46511a1d615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 24/59] fix: spline curves and bicubic splines own their
 splines by value

---
 .../Interpolation2DFunction.h                 | 23 +++++++------------
 .../InterpolationParametricCurve.h            | 13 ++++-------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
index e56e6bc..0d45f87 100644
--- a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
+++ b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
@@ -168,8 +168,7 @@ namespace MML {
 	/// **Algorithm:** Constructs 1D cubic splines along each row (fixed x1),
 	/// then interpolates along x2 first and along x1 second.
 	/// **Continuity:** C¹ (continuous first derivatives)
-	/// @note Uses dynamically allocated SplineInterpRealFunc objects internally.
-	/// Copy and assignment are disabled to prevent double-free.
+	/// @note Copy and assignment are disabled.
 	/// @see BilinearInterp2D for faster but rougher alternative
 	/// @see SplineInterpRealFunc for 1D cubic spline interpolation
 	/// @ingroup Interpolation
@@ -179,7 +178,7 @@ namespace MML {
 		int _m, _n;										///< Grid dimensions
 		Vector<Real> _x1, _x2;							///< Grid coordinates
 		Matrix<Real> _z;								///< Local copy of data
-		std::vector<SplineInterpRealFunc*> _rowSplines; ///< Splines along x2 for each row
+		std::vector<SplineInterpRealFunc> _rowSplines; ///< Splines along x2 for each row
 
 	public:
 		/// @brief Construct a bicubic spline interpolation object.
@@ -193,26 +192,20 @@ namespace MML {
 			, _n(x2v.size())
 			, _x1(x1v)
 			, _x2(x2v)
-			, _z(zm)
-			, _rowSplines(_m) {
+			, _z(zm) {
 			if (zm.rows() != _m || zm.cols() != _n)
 				throw RealFuncInterpInitError("BicubicSplineInterp2D: matrix dimensions don't match grid");
 
 			// Create a spline along x2 for each row (fixed x1[i])
+			_rowSplines.reserve(_m);
 			for (int i = 0; i < _m; i++) {
 				Vector<Real> row(_n);
 				for (int j = 0; j < _n; j++)
 					row[j] = _z(i, j);
-				_rowSplines[i] = new SplineInterpRealFunc(_x2, row);
+				_rowSplines.emplace_back(_x2, row);
 			}
 		}
 
-		~BicubicSplineInterp2D() {
-			for (int i = 0; i < _m; i++)
-				delete _rowSplines[i];
-		}
-
-		// Disable copy to avoid double-free
 		BicubicSplineInterp2D(const BicubicSplineInterp2D&) = delete;
 		BicubicSplineInterp2D& operator=(const BicubicSplineInterp2D&) = delete;
 
@@ -225,7 +218,7 @@ namespace MML {
 			// First interpolate along x2 for each x1[i] to get values at fixed x2
 			Vector<Real> yv(_m);
 			for (int i = 0; i < _m; i++)
-				yv[i] = (*_rowSplines[i])(x2);
+				yv[i] = _rowSplines[i](x2);
 
 			// Then interpolate along x1
 			SplineInterpRealFunc colSpline(_x1, yv);
@@ -243,8 +236,8 @@ namespace MML {
 			// Get values and x2-derivatives along rows
 			Vector<Real> yv(_m), dyv_dx2(_m);
 			for (int i = 0; i < _m; i++) {
-				yv[i] = (*_rowSplines[i])(x2);
-				dyv_dx2[i] = _rowSplines[i]->Derivative(x2);
+				yv[i] = _rowSplines[i](x2);
+				dyv_dx2[i] = _rowSplines[i].Derivative(x2);
 			}
 
 			// Interpolate values along x1
diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8d7aeef..4177048 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -160,7 +160,7 @@ namespace MML {
 		Vector<Real> s;			   ///< Arc-length parameters
 		Vector<Real> ans;		   ///< Temporary result storage
 
-		std::vector<SplineInterpRealFunc*> srp; ///< Spline for each coordinate
+		std::vector<SplineInterpRealFunc> srp; ///< Spline for each coordinate
 
 	public:
 		/// @brief Construct a spline-interpolated parametric curve.
@@ -179,7 +179,6 @@ namespace MML {
 			, _curvePoints(_dim, _bemba)
 			, s(_bemba)
 			, ans(_dim)
-			, srp(_dim)
 			, _minT(minT)
 			, _maxT(maxT) {
 			// check N == dim
@@ -213,13 +212,14 @@ namespace MML {
 			for (i = 0; i < _bemba; i++)
 				s[i] = (s[i] - soff) / ss;
 
+			srp.reserve(_dim);
 			for (j = 0; j < _dim; j++) {
 				db = _bemba < 4 ? 1.e99 : fprime(&s[0], &_curvePoints[j][0], 1);
 				de = _bemba < 4 ? 1.e99 : fprime(&s[_bemba - 1], &_curvePoints[j][_bemba - 1], -1);
 
 				Vector<Real> vec = _curvePoints.VectorFromRow(j);
 
-				srp[j] = new SplineInterpRealFunc(s, vec, db, de);
+				srp.emplace_back(s, vec, db, de);
 			}
 		}
 
@@ -230,11 +230,6 @@ namespace MML {
 		SplineInterpParametricCurve(const Matrix<Real>& ptsin, bool close = 0)
 			: SplineInterpParametricCurve(0.0, 1.0, ptsin, close) {}
 
-		~SplineInterpParametricCurve() {
-			for (int j = 0; j < _dim; j++)
-				delete srp[j];
-		}
-
 		/// /** @brief Get the minimum parameter value. */
 
 		Real getMinT() const { return _minT; }
@@ -262,7 +257,7 @@ namespace MML {
 			// we have to map t from [minT, maxT] to [0, 1]
 			t = (t - _minT) / (_maxT - _minT);
 			for (int j = 0; j < _dim; j++)
-				ans[j] = (*srp[j])(t);
+				ans[j] = srp[j](t);
 
 			return ans;
 		}
-- 
2.43.0


From e03e764ceb6039916cf5feef3dd20ebe4545cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 25/59] fix: evaluating shared interpolants from several
 threads does not race on the error estimate

---
 .../InterpolatedRealFunction.h                | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e226fe8..5acb64c 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -27,6 +27,7 @@
 #define MML_INTERPOLATED_REAL_FUNCTION_H
 
 #include <algorithm>
+#include <atomic>
 #include <cmath>
 
 #include "MMLBase.h"
@@ -211,6 +212,23 @@ namespace MML {
 	};
 
 
+	/// @brief Error estimate of the most recent evaluation.
+	/// Evaluation is const, so interpolants shared between threads write it concurrently.
+
+	class LastErrorEst {
+	private:
+		std::atomic<Real> _value;
+
+	public:
+		LastErrorEst(Real value) : _value(value) {}
+		LastErrorEst(const LastErrorEst& other) : _value(other.get()) {}
+		LastErrorEst& operator=(const LastErrorEst& other) { set(other.get()); return *this; }
+
+		Real get() const { return _value.load(std::memory_order_relaxed); }
+		void set(Real value) { _value.store(value, std::memory_order_relaxed); }
+	};
+
+
 	/////////////////////////////////////////////////////////////////////////////////////
 	///                      POLYNOMIAL INTERPOLATION                                 ///
 	/////////////////////////////////////////////////////////////////////////////////////
@@ -236,7 +254,7 @@ namespace MML {
 
 	class PolynomInterpRealFunc : public RealFunctionInterpolated {
 	private:
-		mutable Real _errorEst;
+		mutable LastErrorEst _errorEst;
 
 	public:
 		/// @brief Construct a polynomial interpolation function.
@@ -250,7 +268,7 @@ namespace MML {
 
 		/// /** @brief Get the error estimate from the last interpolation. */
 
-		Real getLastErrorEst() const { return _errorEst; }
+		Real getLastErrorEst() const { return _errorEst.get(); }
 
 		/// @brief Calculate polynomial interpolated value using Neville's algorithm.
 		/// @param startInd Starting index in the data array
@@ -260,7 +278,7 @@ namespace MML {
 
 		Real calcInterpValue(int startInd, Real x) const override {
 			int i, m, ns = 0;
-			Real y, den, dif, dift, ho, hp, w, dy;
+			Real y, den, dif, dift, ho, hp, w, dy = 0.0;
 			Vector<Real> c(getInterpOrder()), d(getInterpOrder());
 
 			dif = std::abs(x - X(startInd));
@@ -295,7 +313,7 @@ namespace MML {
 
 				y += dy;
 			}
-			_errorEst = dy;
+			_errorEst.set(dy);
 			return y;
 		}
 	};
@@ -584,7 +602,7 @@ namespace MML {
 
 	class RationalInterpRealFunc : public RealFunctionInterpolated {
 	private:
-		mutable Real _errorEst;
+		mutable LastErrorEst _errorEst;
 		static constexpr Real TINY = 1.0e-99; ///< Small number to prevent 0/0
 
 	public:
@@ -599,7 +617,7 @@ namespace MML {
 
 		/// /** @brief Get the error estimate from the last interpolation. */
 
-		Real getLastErrorEst() const { return _errorEst; }
+		Real getLastErrorEst() const { return _errorEst.get(); }
 
 		/// @brief Calculate rational interpolated value using Bulirsch-Stoer algorithm.
 		/// @param startInd Starting index in the data array
@@ -609,7 +627,7 @@ namespace MML {
 
 		Real calcInterpValue(int startInd, Real x) const override {
 			int m, i, ns = 0;
-			Real y, w, t, hh, h, dd;
+			Real y, w, t, hh, h, dd, dy = 0.0;
 			int mm = getInterpOrder();
 			Vector<Real> c(mm), d(mm);
 
@@ -617,7 +635,7 @@ namespace MML {
 			for (i = 0; i < mm; i++) {
 				h = std::abs(x - X(startInd + i));
 				if (h == 0.0) {
-					_errorEst = 0.0;
+					_errorEst.set(0.0);
 					return Y(startInd + i); // Exact hit on a data point
 				} else if (h < hh) {
 					ns = i;
@@ -640,9 +658,10 @@ namespace MML {
 					d[i] = c[i + 1] * dd;
 					c[i] = t * dd;
 				}
-				_errorEst = (2 * (ns + 1) < (mm - m) ? c[ns + 1] : d[ns--]);
-				y += _errorEst;
+				dy = (2 * (ns + 1) < (mm - m) ? c[ns + 1] : d[ns--]);
+				y += dy;
 			}
+			_errorEst.set(dy);
 			return y;
 		}
 	};
-- 
2.43.0


From b9f9ec0558c305ee3f8b10c85e7dc8423a39882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 26/59] fix: detailed curve fits honour check_finite

---
 mml/algorithms/CurveFitting.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 32aaa9c..2459793 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -77,6 +77,11 @@ namespace MML {
 
 				compute(result);
 
+				if (config.check_finite)
+					for (int i = 0; i < result.coefficients.size(); i++)
+						if (!std::isfinite(result.coefficients[i]))
+							throw NumericalMethodError(std::string(algorithm_name) + ": non-finite coefficients");
+
 				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			};
-- 
2.43.0


From 9a062f5399513a6ad65d6939a15937849f755dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 27/59] fix: Gauss-Jordan elimination reports a matrix without
 a finite pivot instead of writing out of bounds

---
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3705caf..9ec4425 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -138,6 +138,7 @@ namespace MML
 			for (j = 0; j < n; j++) ipiv[j] = 0;
 			for (i = 0; i < n; i++) {
 				big = 0.0;
+				irow = icol = -1;
 				for (j = 0; j < n; j++)
 					if (ipiv[j] != 1)
 						for (k = 0; k < n; k++) {
@@ -149,6 +150,9 @@ namespace MML
 								}
 							}
 						}
+				// No entry compares as a pivot when the remaining entries are NaN
+				if (icol < 0)
+					throw MatrixNumericalError("GaussJordanSolver::SolveInPlace - no finite pivot found");
 				++(ipiv[icol]);
 				if (irow != icol) {
 					for (l = 0; l < n; l++) std::swap(a[irow][l], a[icol][l]);
-- 
2.43.0


From 397f4f430e0997f36903e5e91970012a02e20cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 28/59] fix: ODE and DAE solution containers return only stored
 points and grow to any index

---
 mml/base/DAESystem.h         | 77 +++++++++++++++++++++++++-----------
 mml/base/ODESystemSolution.h | 58 ++++++++++++++++++++-------
 2 files changed, 96 insertions(+), 39 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 8d1c53d..68eb8fb 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -53,16 +53,45 @@ namespace MML
 		Matrix<Real> _xval;    ///< Differential variables (diffDim x numPoints)
 		Matrix<Real> _yval;    ///< Algebraic variables (algDim x numPoints)
 
-		/// @brief Extend storage capacity using exponential growth (1.5x)
-		void ExtendSavedSteps()
+		/// @brief Extend storage capacity to hold index ind, using exponential growth (1.5x)
+		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = static_cast<int>(_totalSavedSteps * 1.5) + 1;
+			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
 			
 			_tval.Resize(_totalSavedSteps, true);
 			_xval.Resize(_diffDim, _totalSavedSteps, true);
 			_yval.Resize(_algDim, _totalSavedSteps, true);
 		}
 
+		/// @brief Stored time points, without the unused capacity
+		Vector<Real> StoredTimes() const
+		{
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _tval[i];
+			return res;
+		}
+		/// @brief Stored values of one component, without the unused capacity
+		Vector<Real> StoredRow(const Matrix<Real>& vals, int component) const
+		{
+			if (component < 0 || component >= vals.rows())
+				throw IndexError("Component out of range in DAESolution");
+
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = vals[component][i];
+			return res;
+		}
+		/// @brief Stored values of all components, without the unused capacity
+		Matrix<Real> StoredMatrix(const Matrix<Real>& vals) const
+		{
+			Matrix<Real> res(vals.rows(), _count);
+			for (int i = 0; i < vals.rows(); i++)
+				for (int j = 0; j < _count; j++)
+					res[i][j] = vals[i][j];
+			return res;
+		}
+
 	public:
 		/// @brief Construct solution container with specified capacity
 		/// @param t1 Initial time
@@ -131,11 +160,11 @@ namespace MML
 		//=========================================================================
 
 		/// @brief Get all time points as vector
-		Vector<Real> getTValues() const { return _tval; }
+		Vector<Real> getTValues() const { return StoredTimes(); }
 		/// @brief Get all differential state vectors as matrix (diffDim x numPoints)
-		Matrix<Real> getXValues() const { return _xval; }
+		Matrix<Real> getXValues() const { return StoredMatrix(_xval); }
 		/// @brief Get all algebraic state vectors as matrix (algDim x numPoints)
-		Matrix<Real> getYValues() const { return _yval; }
+		Matrix<Real> getYValues() const { return StoredMatrix(_yval); }
 
 		/// @brief Get t-value at a specific saved point
 		/// @param ind Index of saved point
@@ -180,7 +209,7 @@ namespace MML
 		{
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component out of range in DAESolution::getXValues(component)");
-			return _xval.VectorFromRow(component);
+			return StoredRow(_xval, component);
 		}
 
 		/// @brief Get all values for a specific algebraic component as vector
@@ -190,7 +219,7 @@ namespace MML
 		{
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component out of range in DAESolution::getYValues(component)");
-			return _yval.VectorFromRow(component);
+			return StoredRow(_yval, component);
 		}
 
 		/// @brief Get differential state vector at final saved point
@@ -238,7 +267,7 @@ namespace MML
 				throw ArgumentError("Algebraic vector size mismatch in DAESolution::fillValues");
 
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = t;
 			for (int i = 0; i < _diffDim; i++)
@@ -256,7 +285,7 @@ namespace MML
 			if (ind < 0)
 				throw IndexError("Index must be non-negative in DAESolution::setTVal");
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 			_tval[ind] = t;
 			if (ind + 1 > _count) _count = ind + 1;
 		}
@@ -272,7 +301,7 @@ namespace MML
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component index out of range in DAESolution::setXVal");
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 			_xval[component][ind] = val;
 		}
 
@@ -287,7 +316,7 @@ namespace MML
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component index out of range in DAESolution::setYVal");
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 			_yval[component][ind] = val;
 		}
 
@@ -312,8 +341,8 @@ namespace MML
 		/// @return Linear interpolation function
 		LinearInterpRealFunc getXAsLinInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = StoredTimes();
+			Vector<Real> ysave = StoredRow(_xval, component);
 			return LinearInterpRealFunc(xsave, ysave);
 		}
 
@@ -322,8 +351,8 @@ namespace MML
 		/// @return Linear interpolation function
 		LinearInterpRealFunc getYAsLinInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _yval.VectorFromRow(component);
+			Vector<Real> xsave = StoredTimes();
+			Vector<Real> ysave = StoredRow(_yval, component);
 			return LinearInterpRealFunc(xsave, ysave);
 		}
 
@@ -332,8 +361,8 @@ namespace MML
 		/// @return Cubic spline interpolation function
 		SplineInterpRealFunc getXAsSplineInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = StoredTimes();
+			Vector<Real> ysave = StoredRow(_xval, component);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
@@ -342,8 +371,8 @@ namespace MML
 		/// @return Cubic spline interpolation function
 		SplineInterpRealFunc getYAsSplineInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _yval.VectorFromRow(component);
+			Vector<Real> xsave = StoredTimes();
+			Vector<Real> ysave = StoredRow(_yval, component);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
@@ -353,8 +382,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 2D
 		SplineInterpParametricCurve<2> getXAsParamCurve2D(int ind1, int ind2) const
 		{
-			Matrix<Real> curve_points(_totalSavedSteps, 2);
-			for (int i = 0; i < _totalSavedSteps; i++)
+			Matrix<Real> curve_points(_count, 2);
+			for (int i = 0; i < _count; i++)
 			{
 				curve_points(i, 0) = _xval[ind1][i];
 				curve_points(i, 1) = _xval[ind2][i];
@@ -369,8 +398,8 @@ namespace MML
 		/// @return Spline-interpolated parametric curve in 3D
 		SplineInterpParametricCurve<3> getXAsParamCurve3D(int ind1, int ind2, int ind3) const
 		{
-			Matrix<Real> curve_points(_totalSavedSteps, 3);
-			for (int i = 0; i < _totalSavedSteps; i++)
+			Matrix<Real> curve_points(_count, 3);
+			for (int i = 0; i < _count; i++)
 			{
 				curve_points(i, 0) = _xval[ind1][i];
 				curve_points(i, 1) = _xval[ind2][i];
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 2c28b46..af7263e 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -17,6 +17,8 @@
 
 #include "base/InterpolatedFunction.h"
 
+#include <algorithm>
+
 
 namespace MML
 {
@@ -36,16 +38,36 @@ namespace MML
 		Vector<Real> _tval;
 		Matrix<Real> _xval;
 	
-		/// @brief Extend storage capacity using exponential growth (1.5x)
-		void ExtendSavedSteps()
+		/// @brief Extend storage capacity to hold index ind, using exponential growth (1.5x)
+		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = static_cast<int>(_totalSavedSteps * 1.5) + 1;
+			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
 			
 			// resizing the storage while preserving old values
 			_tval.Resize(_totalSavedSteps, true);
 			_xval.Resize(_sysDim, _totalSavedSteps, true);
 		}
 
+		/// @brief Stored time points, without the unused capacity
+		Vector<Real> StoredTimes() const
+		{
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _tval[i];
+			return res;
+		}
+		/// @brief Stored values of one component, without the unused capacity
+		Vector<Real> StoredComponent(int component) const
+		{
+			if (component < 0 || component >= _sysDim)
+				throw IndexError("Component out of range in ODESystemSolution");
+
+			Vector<Real> res(_count);
+			for (int i = 0; i < _count; i++)
+				res[i] = _xval[component][i];
+			return res;
+		}
+
 	public:
 		/// @brief Construct solution container with specified capacity
 		/// @param x1 Initial time
@@ -105,9 +127,15 @@ namespace MML
 		}
 
 		/// @brief Get all time points as vector
-		Vector<Real> getTValues() const { return _tval; }
+		Vector<Real> getTValues() const { return StoredTimes(); }
 		/// @brief Get all state vectors as matrix (dim x numPoints)
-		Matrix<Real> getXValues() const { return _xval; }
+		Matrix<Real> getXValues() const {
+			Matrix<Real> res(_sysDim, _count);
+			for (int i = 0; i < _sysDim; i++)
+				for (int j = 0; j < _count; j++)
+					res[i][j] = _xval[i][j];
+			return res;
+		}
 		
 		/// @brief Get t-value at a specific saved point
 		/// @param ind Index of saved point
@@ -138,7 +166,7 @@ namespace MML
 			if (component < 0 || component >= _sysDim)
 				throw IndexError("Component out of range in ODESystemSolution::getXValues(component)");
 			
-			return _xval.VectorFromRow(component); 
+			return StoredComponent(component);
 		}
 
 		/// @brief Get state vector at final saved point
@@ -163,7 +191,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in ODESystemSolution::setTVal");
 			
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = x;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -182,7 +210,7 @@ namespace MML
 				throw IndexError("Component index out of range in ODESystemSolution::setXVal(component)");
 
 			if (ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_xval[component][ind] = x;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -203,7 +231,7 @@ namespace MML
 				throw ArgumentError("Vector size mismatch in ODESystemSolution::fillValues");
 
 			if(ind >= _totalSavedSteps)
-				ExtendSavedSteps();
+				ExtendSavedSteps(ind);
 
 			_tval[ind] = x;
 			for (int i = 0; i < _sysDim; i++)
@@ -227,8 +255,8 @@ namespace MML
 		/// @return Linear interpolation function
 		LinearInterpRealFunc  getSolAsLinInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = StoredTimes();
+			Vector<Real> ysave = StoredComponent(component);
 
 			return LinearInterpRealFunc(xsave, ysave);
 		}
@@ -239,8 +267,8 @@ namespace MML
 		/// @return Polynomial interpolation function
 		PolynomInterpRealFunc getSolAsPolyInterp(int component, int polyOrder) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = StoredTimes();
+			Vector<Real> ysave = StoredComponent(component);
 			return PolynomInterpRealFunc(xsave, ysave, polyOrder + 1);
 		}
 		
@@ -249,8 +277,8 @@ namespace MML
 		/// @return Cubic spline interpolation function
 		SplineInterpRealFunc  getSolAsSplineInterp(int component) const
 		{
-			Vector<Real> xsave = _tval;
-			Vector<Real> ysave = _xval.VectorFromRow(component);
+			Vector<Real> xsave = StoredTimes();
+			Vector<Real> ysave = StoredComponent(component);
 			return SplineInterpRealFunc(xsave, ysave);
 		}
 
-- 
2.43.0


From d420b20bb816899c5c008d311438475e21e97ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 29/59] fix: adaptive ODE integration rejects non-finite steps,
 honours max_steps and ends exactly at the final time

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 92 +++++++++++++------
 mml/algorithms/ODESolvers/ODESteppers.h       | 18 +++-
 2 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index ddf0f42..9999944 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -18,6 +18,7 @@
 #include "mml/base/ODESystemSolution.h"
 #include "mml/algorithms/ODESolvers/ODESteppers.h"
 
+#include <limits>
 #include <optional>
 
 namespace MML {
@@ -213,6 +214,16 @@ namespace MML {
 			return std::min({100 * h0, h1, std::abs(tEnd - t0)});
 		}
 
+		/// @brief Number of output intervals: the last one may be shorter
+		static int outputIntervals(Real t0, Real tEnd, Real outputInterval) {
+			Real ratio = (tEnd - t0) / outputInterval;
+			return std::max(0, static_cast<int>(std::ceil(ratio - Real(1e-9) * std::max<Real>(Real(1), std::abs(ratio)))));
+		}
+		/// @brief Time of output point k of numIntervals + 1; the last one is exactly tEnd
+		static Real outputTime(Real t0, Real tEnd, Real outputInterval, int k, int numIntervals) {
+			return k >= numIntervals ? tEnd : t0 + k * outputInterval;
+		}
+
 		/// @brief Integrate ODE system with dense output at fixed intervals
 		/// @param x0 Initial conditions
 		/// @param t0 Initial time
@@ -221,12 +232,15 @@ namespace MML {
 		/// @param eps Error tolerance (default 1e-10)
 		/// @param h0 Initial step size (0 = auto-estimate)
 		/// @param minStepSize Minimum allowed step size (default 1e-15)
+		/// @param maxSteps Maximum number of accepted steps; when it is reached before tEnd, the points
+		///                 computed so far are returned and the status in the statistics says so
 		/// @return Solution with points at regular intervals
-		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
+		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15,
+																int maxSteps = std::numeric_limits<int>::max()) {
 			int n = _sys.getDim();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+			int numIntervals = outputIntervals(t0, tEnd, outputInterval);
 
-			ODESystemSolution sol(t0, tEnd, n, numOutputPoints - 1);
+			ODESystemSolution sol(t0, tEnd, n, numIntervals);
 			_stats.reset();
 			_stepper.resetFSAL();
 
@@ -242,15 +256,20 @@ namespace MML {
 			h = std::min(h, tEnd - t0);
 
 			// Store initial point
-			Real tNextOutput = t0;
 			int outputIdx = 0;
 			sol.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
 
 			// Main integration loop
 			while (t < tEnd - Constants::Eps) {
+				if (_stats.acceptedSteps >= maxSteps) {
+					_stats.status = AlgorithmStatus::MaxIterationsExceeded;
+					_stats.error_message = "Maximum steps (" + std::to_string(maxSteps) + ") exceeded";
+					return sol;
+				}
+
 				// Don't step past end
-				if (t + h > tEnd) {
+				bool toEnd = t + h >= tEnd;
+				if (toEnd) {
 					h = tEnd - t;
 				}
 
@@ -258,15 +277,13 @@ namespace MML {
 				_stats.recordStep(result);
 
 				if (result.accepted) {
-					Real tNew = t + result.hDone;
+					// A full step to the end lands there exactly, whatever the rounding of t + h
+					Real tNew = (toEnd && result.hDone == h) ? tEnd : t + result.hDone;
 
 					// Dense output: interpolate at all output points within this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = _stepper.interpolate(tNextOutput);
-							sol.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
+					while (outputIdx < numIntervals && outputTime(t0, tEnd, outputInterval, outputIdx, numIntervals) <= tNew) {
+						Real tOut = outputTime(t0, tEnd, outputInterval, outputIdx, numIntervals);
+						sol.fillValues(outputIdx++, tOut, _stepper.interpolate(tOut));
 					}
 
 					t = tNew;
@@ -279,14 +296,15 @@ namespace MML {
 				}
 
 				// Safety check
-				if (h < minStepSize) {
+				if (h < minStepSize && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in ODEAdaptiveIntegrator");
 				}
 			}
 
-			// Ensure final point is captured
-			if (outputIdx < numOutputPoints) {
-				sol.fillValues(outputIdx++, tEnd, x);
+			// The final point is the state the integration ended in
+			while (outputIdx <= numIntervals) {
+				Real tOut = outputTime(t0, tEnd, outputInterval, outputIdx, numIntervals);
+				sol.fillValues(outputIdx++, tOut, x);
 			}
 
 			return sol;
@@ -327,7 +345,14 @@ namespace MML {
 			while (outputIdx < numPoints) {
 				Real tTarget = times[outputIdx];
 
-				if (t + h > tTarget) {
+				// Output time already reached (repeated output times)
+				if (tTarget <= t) {
+					sol.fillValues(outputIdx++, tTarget, x);
+					continue;
+				}
+
+				bool toTarget = t + h >= tTarget;
+				if (toTarget) {
 					h = tTarget - t;
 				}
 
@@ -335,13 +360,13 @@ namespace MML {
 				_stats.recordStep(result);
 
 				if (result.accepted) {
-					Real tNew = t + result.hDone;
+					Real tNew = (toTarget && result.hDone == h) ? tTarget : t + result.hDone;
 
 					// Output at any times within this step
 					while (outputIdx < numPoints && times[outputIdx] <= tNew + Constants::Eps) {
 						Real tOut = times[outputIdx];
 						if (std::abs(tOut - tNew) < Constants::Eps) {
-							sol.fillValues(outputIdx++, tNew, x);
+							sol.fillValues(outputIdx++, tOut, x);
 						} else {
 							Vector<Real> xInterp = _stepper.interpolate(tOut);
 							sol.fillValues(outputIdx++, tOut, xInterp);
@@ -377,16 +402,10 @@ namespace MML {
 				: (tEnd - t0) / 100.0;  // Default: 100 output points
 
 			ODESystemSolution sol = integrate(x0, t0, tEnd, outputInterval, 
-				config.tolerance, config.initial_step_size, config.min_step_size);
+				config.tolerance, config.initial_step_size, config.min_step_size, config.max_steps);
 
 			// Populate diagnostic fields in statistics
 			_stats.elapsed_time_ms = timer.elapsed_ms();
-			
-			// Check for max steps exceeded (if we tracked it)
-			if (_stats.acceptedSteps >= config.max_steps) {
-				_stats.status = AlgorithmStatus::MaxIterationsExceeded;
-				_stats.error_message = "Maximum steps (" + std::to_string(config.max_steps) + ") exceeded";
-			}
 
 			return sol;
 		}
@@ -428,6 +447,16 @@ namespace MML {
 	///////////////////////////////////////////////////////////////////////////////////////////
 	namespace ODEAdaptiveDetail
 	{
+		/// True if every stored state of the solution is finite
+		inline bool AllFinite(const ODESystemSolution& sol)
+		{
+			for (int i = 0; i < sol.size(); i++)
+				for (int j = 0; j < sol.getSysDim(); j++)
+					if (!std::isfinite(sol.getXValue(i, j)))
+						return false;
+			return true;
+		}
+
 		template<typename ResultType, typename ComputeFn>
 		ResultType ExecuteODEAdaptiveDetailed(const char* algorithm_name,
 		                                      const EvaluationConfigBase& config,
@@ -483,6 +512,15 @@ namespace MML {
 				result.min_step_size    = stats.minStepSize;
 				result.max_step_size    = stats.maxStepSize;
 				result.function_evaluations = stats.totalFuncEvals;
+
+				if (stats.status != AlgorithmStatus::Success) {
+					result.status        = stats.status;
+					result.error_message = stats.error_message;
+				}
+				else if (config.check_finite && !ODEAdaptiveDetail::AllFinite(*result.solution)) {
+					result.status        = AlgorithmStatus::NumericalInstability;
+					result.error_message = "Integration produced non-finite values";
+				}
 			});
 	}
 
diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 5d3a8d3..0135f40 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -38,6 +38,14 @@ namespace MML {
 		std::string error_message;  ///< Error description (usually empty for steps)
 	};
 
+	/// @brief Fold one component's error ratio into the maximum
+	/// A NaN ratio (a step that ran into non-finite values) counts as an infinite error, so that such a step is rejected.
+	inline Real MaxErrorRatio(Real current, Real ratio) {
+		if (std::isnan(ratio))
+			return std::numeric_limits<Real>::infinity();
+		return std::max<Real>(current, ratio);
+	}
+
 	//===================================================================================
 	//                           IAdaptiveStepper
 	//===================================================================================
@@ -228,7 +236,7 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (e1 * _k1[i] + e3 * _k3[i] + e4 * _k4[i] + e5 * _k5[i] + e6 * _k6[i] + e7 * _k7[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * _k1[i]) + Precision::DivisionSafetyThreshold; // Avoid division by zero
-					errMax = std::max(errMax, std::abs(err) / scale);
+					errMax = MaxErrorRatio(errMax, std::abs(err) / scale);
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -435,7 +443,7 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (dc1 * _k1[i] + dc3 * _k3[i] + dc4 * _k4[i] + dc5 * _k5[i] + dc6 * _k6[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * dxdt[i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					errMax = MaxErrorRatio(errMax, std::abs(err) / scale);
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -677,7 +685,7 @@ namespace MML {
 						err += (b8[j] - b7[j]) * _k[j][i];
 					err *= h;
 					Real scale = std::abs(x[i]) + std::abs(h * _k[0][i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					errMax = MaxErrorRatio(errMax, std::abs(err) / scale);
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -914,7 +922,7 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						errMax = MaxErrorRatio(errMax, errRatio);
 					}
 
 					result.errMax = errMax;
@@ -1141,7 +1149,7 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						errMax = MaxErrorRatio(errMax, errRatio);
 					}
 
 					result.errMax = errMax;
-- 
2.43.0


From 5bc06e062aac174c5bd603963a5c723d9f19bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 30/59] fix: event integration reports every crossing of a step
 once, in order

---
 .../ODESolvers/ODESolverEventDetection.h      | 91 +++++++++++--------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index ee5d0d8..ad7c021 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -16,6 +16,10 @@
 #include "mml/algorithms/ODESolvers/ODESolverAdaptive.h"
 #include "mml/interfaces/IODESystemWithEvents.h"
 
+#include <algorithm>
+#include <utility>
+#include <vector>
+
 namespace MML {
 
 	//===================================================================================
@@ -90,9 +94,9 @@ namespace MML {
 																		Real eps = 1e-10, Real eventTol = 1e-12, Real h0 = 0) {
 			int n = sys.getDim();
 			int numEvents = sys.getNumEvents();
-			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
+			int numIntervals = this->outputIntervals(t0, tEnd, outputInterval);
 
-			EventResult result(t0, tEnd, n, numOutputPoints - 1);
+			EventResult result(t0, tEnd, n, numIntervals);
 			this->_stats.reset();
 			this->_stepper.resetFSAL();
 
@@ -111,16 +115,24 @@ namespace MML {
 			h = std::min(h, tEnd - t0);
 
 			// Output management
-			Real tNextOutput = t0;
 			int outputIdx = 0;
 			result.solution.fillValues(outputIdx++, t0, x0);
-			tNextOutput += outputInterval;
 
+			// Dense output at the regular times up to tUpTo, within the last accepted step
+			auto outputUpTo = [&](Real tUpTo) {
+				while (outputIdx < numIntervals && this->outputTime(t0, tEnd, outputInterval, outputIdx, numIntervals) <= tUpTo) {
+					Real tOut = this->outputTime(t0, tEnd, outputInterval, outputIdx, numIntervals);
+					result.solution.fillValues(outputIdx++, tOut, this->_stepper.interpolate(tOut));
+				}
+			};
+
+			int onSurface = -1; // Event whose function a restart left at its zero
 			const int maxEventIterations = 100; // Safety limit for root finding
 
 			// Main integration loop
 			while (t < tEnd - Constants::Eps) {
-				if (t + h > tEnd) {
+				bool toEnd = t + h >= tEnd;
+				if (toEnd) {
 					h = tEnd - t;
 				}
 
@@ -128,25 +140,31 @@ namespace MML {
 				this->_stats.recordStep(stepResult);
 
 				if (stepResult.accepted) {
-					Real tNew = t + stepResult.hDone;
+					Real tNew = (toEnd && stepResult.hDone == h) ? tEnd : t + stepResult.hDone;
 
 					// Evaluate event functions at new time
 					Vector<Real> gNew(numEvents);
 					sys.eventFunctions(tNew, x, gNew);
 
-					// Check for zero crossings
-					bool eventDetected = false;
-					int eventIndex = -1;
-					Real eventTime = tNew;
+					// A restart left this event function at its zero: it continues on the side it moves to
+					if (onSurface >= 0) {
+						Real tSide = t + Real(0.001) * stepResult.hDone;
+						gPrev[onSurface] = sys.eventFunction(onSurface, tSide, this->_stepper.interpolate(tSide));
+						onSurface = -1;
+					}
+
+					// Check for zero crossings: a step may contain crossings of several event functions
+					std::vector<std::pair<Real, int>> crossings;
 
 					for (int i = 0; i < numEvents; ++i) {
 						bool crossing = false;
 						EventDirection actualDir = EventDirection::Both;
 
-						// Check sign change
-						if (gPrev[i] * gNew[i] < 0) {
+						// Check sign change; an event function that is exactly zero at the end of the step
+						// has crossed in this step, and does not cross again in the next one
+						if ((gPrev[i] < 0 && gNew[i] >= 0) || (gPrev[i] > 0 && gNew[i] <= 0)) {
 							// Determine crossing direction
-							if (gPrev[i] < 0 && gNew[i] > 0) {
+							if (gPrev[i] < 0) {
 								actualDir = EventDirection::Increasing;
 							} else {
 								actualDir = EventDirection::Decreasing;
@@ -192,16 +210,16 @@ namespace MML {
 								}
 							}
 
-							Real tEvent = tLo;
-							if (tEvent < eventTime) {
-								eventTime = tEvent;
-								eventIndex = i;
-								eventDetected = true;
-							}
+							crossings.emplace_back(tLo, i);
 						}
 					}
+					std::sort(crossings.begin(), crossings.end());
+
+					bool restarted = false;
+					for (const auto& found : crossings) {
+						Real eventTime = found.first;
+						int eventIndex = found.second;
 
-					if (eventDetected && eventIndex >= 0) {
 						// Get precise state at event
 						Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
 						Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
@@ -218,13 +236,7 @@ namespace MML {
 						result.events.push_back(evt);
 
 						// Dense output up to event time
-						while (tNextOutput <= eventTime + Constants::Eps && outputIdx < numOutputPoints) {
-							if (tNextOutput <= eventTime) {
-								Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-								result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-							}
-							tNextOutput += outputInterval;
-						}
+						outputUpTo(eventTime);
 
 						// Determine action
 						EventAction action = sys.getEventAction(eventIndex);
@@ -243,24 +255,24 @@ namespace MML {
 							x = xEvent;
 							sys.derivs(t, x, dxdt);
 							sys.eventFunctions(t, x, gPrev);
+							// The handler left the state on the event surface: the crossing just handled must not fire again
+							if (std::abs(gPrev[eventIndex]) <= std::abs(gEvent) + eventTol)
+								onSurface = eventIndex;
 							this->_stepper.resetFSAL();
 
 							// Re-estimate step size
 							h = this->estimateInitialStep(t, x, tEnd, eps);
 							h = std::min(h, tEnd - t);
-							continue; // Skip normal update
+							restarted = true;
+							break; // Later crossings of this step are looked for again from here
 						}
-						// EventAction::Continue: fall through to normal update
+						// EventAction::Continue: go on with the next crossing
 					}
+					if (restarted)
+						continue; // Skip normal update
 
 					// Dense output for this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-							result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
-					}
+					outputUpTo(tNew);
 
 					// Update for next step
 					t = tNew;
@@ -270,14 +282,15 @@ namespace MML {
 					h = stepResult.hNext;
 				}
 
-				if (h < Constants::Eps) {
+				if (h < Constants::Eps && t < tEnd - Constants::Eps) {
 					throw ODESolverError("Step size too small in integrateWithEvents");
 				}
 			}
 
 			// Ensure final point
-			if (outputIdx < numOutputPoints) {
-				result.solution.fillValues(outputIdx++, tEnd, x);
+			while (outputIdx <= numIntervals) {
+				Real tOut = this->outputTime(t0, tEnd, outputInterval, outputIdx, numIntervals);
+				result.solution.fillValues(outputIdx++, tOut, x);
 			}
 
 			result.finalTime = t;
-- 
2.43.0


From c5ff13b2a4dbdb03505874277c2b023b7e3d7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 31/59] fix: stiff ODE solvers reach the final time, honour
 max_steps and report non-finite results

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 103 +++++++++++++++------
 1 file changed, 74 insertions(+), 29 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 5201d60..9e38b35 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -124,6 +124,12 @@ namespace MML {
 			: solution(t0, t_end, dim, num_steps) {}
 	};
 
+	/// @brief Number of steps of size h from t0 to t_end; the last one may be shorter
+	inline int StiffStepCount(Real t0, Real t_end, Real h) {
+		Real ratio = (t_end - t0) / h;
+		return std::max(0, static_cast<int>(std::ceil(ratio - Real(1e-9) * std::max<Real>(Real(1), std::abs(ratio)))));
+	}
+
 	///////////////////////////////////////////////////////////////////////////////////////////
 	//                           BACKWARD EULER METHOD                                        //
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -144,7 +150,7 @@ namespace MML {
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 												int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = StiffStepCount(t0, t_end, h);
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -157,9 +163,10 @@ namespace MML {
 		sol.fillValues(0, t, y);
 		int step = 1;
 
-		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		while (step <= num_steps) {
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t + h;
+			Real h_actual = t_next - t;
 
 			// Newton iteration to solve: y_new - y - h*f(t_next, y_new) = 0
 			Vector<Real> y_new = y; // Initial guess
@@ -219,7 +226,7 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = StiffStepCount(t0, t_end, config.step_size);
 		StiffSolverResult result(t0, t_end, dim, num_steps);
 		result.algorithm_name = "BackwardEuler";
 
@@ -256,7 +263,7 @@ namespace MML {
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = StiffStepCount(t0, t_end, h);
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -271,9 +278,11 @@ namespace MML {
 		int step = 1;
 
 		// First step: Use Backward Euler (BDF1) to bootstrap
-		if (step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		Real h_prev = h;
+		if (step <= num_steps) {
+			Real t_next = (step == num_steps) ? t_end : t + h;
+			Real h_actual = t_next - t;
+			h_prev = h_actual;
 
 			Vector<Real> y_new = y;
 			bool converged = false;
@@ -310,15 +319,20 @@ namespace MML {
 		}
 
 		// Subsequent steps: Use BDF2
-		while (t < t_end && step < num_steps) {
-			Real h_actual = std::min(h, t_end - t);
-			Real t_next = t + h_actual;
+		while (step <= num_steps) {
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t + h;
+			Real h_actual = t_next - t;
 
 			// BDF2: y_{n+1} = (4/3)*y_n - (1/3)*y_{n-1} + (2/3)*h*f(t_{n+1}, y_{n+1})
 			// Rearrange: y_{n+1} - (2/3)*h*f(t_{n+1}, y_{n+1}) = (4/3)*y_n - (1/3)*y_{n-1}
 
-			Vector<Real> y_new = y * 2.0 - y_prev; // Extrapolation as initial guess
-			Vector<Real> rhs = y * (4.0 / 3.0) - y_prev * (1.0 / 3.0);
+			// A shortened last step uses the variable-step coefficients with w = h_n / h_{n-1}
+			Real w = (step == num_steps) ? h_actual / h_prev : Real(1);
+			Real coef_h = (1 + w) / (1 + 2 * w);
+
+			Vector<Real> y_new = y + (y - y_prev) * w; // Extrapolation as initial guess
+			Vector<Real> rhs = y * ((1 + w) * (1 + w) / (1 + 2 * w)) - y_prev * (w * w / (1 + 2 * w));
 
 			bool converged = false;
 			for (int iter = 0; iter < max_newton_iter; ++iter) {
@@ -326,7 +340,7 @@ namespace MML {
 				system.jacobian(t_next, y_new, dydt, J);
 
 				// Residual: r = y_new - (2/3)*h*f - rhs
-				Vector<Real> residual = y_new - dydt * (2.0 / 3.0 * h_actual) - rhs;
+				Vector<Real> residual = y_new - dydt * (coef_h * h_actual) - rhs;
 				Real res_norm = residual.NormL2();
 
 				if (res_norm < newton_tol) {
@@ -335,7 +349,7 @@ namespace MML {
 				}
 
 				// Newton step: solve (I - (2/3)*h*J)*delta = -residual
-				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (2.0 / 3.0 * h_actual);
+				Matrix<Real> A = Matrix<Real>::Identity(dim) - J * (coef_h * h_actual);
 				Vector<Real> rhs = residual * (-1.0);
 				GaussJordanSolver<Real>::SolveInPlace(A, rhs);
 				Vector<Real> delta = rhs;
@@ -348,6 +362,7 @@ namespace MML {
 
 			// Accept step
 			y_prev = y;
+			h_prev = h_actual;
 			y = y_new;
 			t = t_next;
 			sol.fillValues(step, t, y);
@@ -371,7 +386,7 @@ namespace MML {
 		AlgorithmTimer timer;  // Starts automatically
 
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = StiffStepCount(t0, t_end, config.step_size);
 		StiffSolverResult result(t0, t_end, dim, num_steps);
 		result.algorithm_name = "BDF2";
 
@@ -453,8 +468,10 @@ namespace MML {
 			Matrix<Real> W_copy = W;
 			try {
 				GaussJordanSolver<Real>::SolveInPlace(W_copy, k1);
-			} catch (...) {
+			} catch (const SingularMatrixError&) {
 				return false; // Linear solve failed
+			} catch (const MatrixNumericalError&) {
+				return false;
 			}
 
 			// Stage 2: Solve W*k2 = h*f(t + h, y + k1) - 2*k1
@@ -466,7 +483,9 @@ namespace MML {
 			W_copy = W;
 			try {
 				GaussJordanSolver<Real>::SolveInPlace(W_copy, k2);
-			} catch (...) {
+			} catch (const SingularMatrixError&) {
+				return false;
+			} catch (const MatrixNumericalError&) {
 				return false;
 			}
 
@@ -485,12 +504,12 @@ namespace MML {
 		/// @param y0 Initial condition
 		/// @param t_end Final time
 		/// @param h_init Initial step size
+		/// @param max_steps Maximum number of accepted steps
 		/// @return Solution trajectory
-		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init) {
+		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init, int max_steps = 50000) {
 			int dim = y0.size();
-			int max_steps = 50000; // Safety limit (storage grows dynamically if needed)
 
-			ODESystemSolution sol(t0, t_end, dim, max_steps);
+			ODESystemSolution sol(t0, t_end, dim, std::min(max_steps, 1000)); // Storage grows as needed
 
 			Real t = t0;
 			Vector<Real> y = y0;
@@ -506,11 +525,12 @@ namespace MML {
 			sol.fillValues(0, t, y);
 			int step = 1;
 
-			while (t < t_end && step < max_steps) {
+			while (t < t_end && step <= max_steps) {
 				Real h_actual = std::min(h, t_end - t);
 
 				// Don't take tiny final steps
-				if (t + h_actual * 1.01 >= t_end) {
+				bool to_end = t + h_actual * 1.01 >= t_end;
+				if (to_end) {
 					h_actual = t_end - t;
 				}
 
@@ -534,7 +554,10 @@ namespace MML {
 				for (int i = 0; i < dim; ++i) {
 					Real scale = _abs_tol + _rel_tol * std::max(std::abs(y[i]), std::abs(y_new[i]));
 					Real err_scaled = std::abs(y_err[i]) / scale;
-					err_norm = std::max(err_norm, err_scaled);
+					// A NaN error (non-finite stage values) is an infinite one: the step is rejected
+					err_norm = std::isnan(err_scaled) ? std::numeric_limits<Real>::infinity() : std::max(err_norm, err_scaled);
+					if (std::isinf(err_norm))
+						break;
 				}
 
 				// Avoid division by zero
@@ -543,7 +566,7 @@ namespace MML {
 				// Accept or reject step
 				if (err_norm <= 1.0) {
 					// Accept step
-					t += h_actual;
+					t = to_end ? t_end : t + h_actual;
 					y = y_new;
 					sol.fillValues(step, t, y);
 					sol.incrementSuccessfulSteps();
@@ -568,7 +591,7 @@ namespace MML {
 				}
 			}
 
-			if (step >= max_steps) {
+			if (t < t_end) {
 				throw std::runtime_error("Rosenbrock: Maximum steps exceeded");
 			}
 
@@ -587,7 +610,7 @@ namespace MML {
 
 			int dim = y0.size();
 			int max_steps = config.max_steps;
-			StiffSolverResult result(t0, t_end, dim, max_steps);
+			StiffSolverResult result(t0, t_end, dim, std::min(max_steps, 1000));
 			result.algorithm_name = "Rosenbrock23";
 
 			// Update internal tolerances
@@ -596,7 +619,7 @@ namespace MML {
 
 			try {
 				Real h_init = (config.step_size > 0) ? config.step_size : (t_end - t0) / 100.0;
-				result.solution = Solve(t0, y0, t_end, h_init);
+				result.solution = Solve(t0, y0, t_end, h_init, max_steps);
 				result.total_steps = result.solution.getNumStepsOK();
 			} catch (const std::exception& e) {
 				result.status = AlgorithmStatus::NumericalInstability;
@@ -633,6 +656,16 @@ namespace MML {
 	///////////////////////////////////////////////////////////////////////////////////////////
 	namespace ODEStiffDetail
 	{
+		/// True if every stored state of the solution is finite
+		inline bool AllFinite(const ODESystemSolution& sol)
+		{
+			for (int i = 0; i < sol.size(); i++)
+				for (int j = 0; j < sol.getSysDim(); j++)
+					if (!std::isfinite(sol.getXValue(i, j)))
+						return false;
+			return true;
+		}
+
 		template<typename ResultType, typename ComputeFn>
 		ResultType ExecuteODEStiffDetailed(const char* algorithm_name,
 		                                   const EvaluationConfigBase& config,
@@ -686,6 +719,10 @@ namespace MML {
 					result.status        = inner.status;
 					result.error_message = inner.error_message;
 				}
+				else if (config.check_finite && !ODEStiffDetail::AllFinite(*result.solution)) {
+					result.status        = AlgorithmStatus::NumericalInstability;
+					result.error_message = "Integration produced non-finite values";
+				}
 			});
 	}
 
@@ -708,6 +745,10 @@ namespace MML {
 					result.status        = inner.status;
 					result.error_message = inner.error_message;
 				}
+				else if (config.check_finite && !ODEStiffDetail::AllFinite(*result.solution)) {
+					result.status        = AlgorithmStatus::NumericalInstability;
+					result.error_message = "Integration produced non-finite values";
+				}
 			});
 	}
 
@@ -731,6 +772,10 @@ namespace MML {
 					result.status        = inner.status;
 					result.error_message = inner.error_message;
 				}
+				else if (config.check_finite && !ODEStiffDetail::AllFinite(*result.solution)) {
+					result.status        = AlgorithmStatus::NumericalInstability;
+					result.error_message = "Integration produced non-finite values";
+				}
 			});
 	}
 
-- 
2.43.0


From abd99ec203a3bbf697ce986514ba916839e4bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 32/59] fix: DAE solvers reach the final time and report when
 max_steps stops them

---
 mml/algorithms/DAESolvers/DAEBDF2.h          | 44 +++++++-------
 mml/algorithms/DAESolvers/DAEBDF4.h          | 60 ++++++++++----------
 mml/algorithms/DAESolvers/DAEBackwardEuler.h | 13 ++---
 mml/algorithms/DAESolvers/DAERODAS.h         | 29 ++++++----
 mml/algorithms/DAESolvers/DAERadauIIA.h      | 16 +++---
 mml/algorithms/DAESolvers/DAESolverBase.h    | 17 ++++++
 6 files changed, 103 insertions(+), 76 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAEBDF2.h b/mml/algorithms/DAESolvers/DAEBDF2.h
index e9d461d..308b280 100644
--- a/mml/algorithms/DAESolvers/DAEBDF2.h
+++ b/mml/algorithms/DAESolvers/DAEBDF2.h
@@ -55,7 +55,7 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
 		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
 		result.algorithm_name = "DAEBDF2";
@@ -83,6 +83,8 @@ namespace MML {
 		result.solution.fillValues(0, t, x, y);
 		int step = 1;
 
+		Real bdf2_w = 1; // Ratio of this step to the previous one
+
 		// Helper function for Newton solve (returns true if converged)
 		auto newtonSolve = [&](Real t_next, Real h, const Vector<Real>& x_pred,
 		                       Vector<Real>& x_new, Vector<Real>& y_new,
@@ -102,9 +104,10 @@ namespace MML {
 				if (useBDF2)
 				{
 					// BDF2: x_new = (4/3)*x - (1/3)*x_prev + (2/3)*h*f
-					Real c0 = 4.0 / 3.0;
-					Real c1 = -1.0 / 3.0;
-					Real c2 = 2.0 / 3.0;
+					// (with w = h_n / h_{n-1} other than 1 for a shortened last step)
+					Real c0 = (1 + bdf2_w) * (1 + bdf2_w) / (1 + 2 * bdf2_w);
+					Real c1 = -bdf2_w * bdf2_w / (1 + 2 * bdf2_w);
+					Real c2 = (1 + bdf2_w) / (1 + 2 * bdf2_w);
 					for (int i = 0; i < diffDim; ++i)
 						residual[i] = x_new[i] - c0 * x[i] - c1 * x_prev_bdf[i] - c2 * h * dxdt[i];
 				}
@@ -127,7 +130,7 @@ namespace MML {
 				result.jacobian_evaluations++;
 
 				// Build augmented Jacobian
-				Real h_eff = useBDF2 ? (2.0 / 3.0) * h : h;
+				Real h_eff = useBDF2 ? (1 + bdf2_w) / (1 + 2 * bdf2_w) * h : h;
 				for (int i = 0; i < diffDim; ++i)
 				{
 					for (int j = 0; j < diffDim; ++j)
@@ -158,10 +161,13 @@ namespace MML {
 		};
 
 		// First step: Backward Euler
-		if (step < config.max_steps && t < t_end)
+		Real h_prev = config.step_size;
+		if (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			Real t_next = t + h;
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t + config.step_size;
+			Real h = t_next - t;
+			h_prev = h;
 
 			// Initial guess
 			system.diffEqs(t, x, y, dxdt);
@@ -172,7 +178,7 @@ namespace MML {
 			{
 				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Newton iteration failed at first step (Backward Euler)";
-				result.elapsed_time_ms = timer.elapsed_ms();
+				FinishDAEResult(result, step - 1, num_steps, timer.elapsed_ms());
 				return result;
 			}
 
@@ -193,18 +199,15 @@ namespace MML {
 		}
 
 		// Remaining steps: BDF2
-		while (t < t_end && step < config.max_steps)
+		while (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			
-			// Skip degenerate final steps (floating-point round-off)
-			if (h < config.step_size * 1e-10)
-				break;
-			
-			Real t_next = t + h;
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t + config.step_size;
+			Real h = t_next - t;
 
-			// For very small final steps (< 10% of nominal), use Backward Euler
+			// A shortened last step uses the variable-step coefficients, or Backward Euler below 10% of nominal
 			bool use_be_for_final = (h < config.step_size * 0.1);
+			bdf2_w = (step == num_steps) ? h / h_prev : Real(1);
 
 			// BDF2 prediction: extrapolate
 			system.diffEqs(t, x, y, dxdt);
@@ -220,6 +223,7 @@ namespace MML {
 
 			// Accept step
 			x_prev = x;
+			h_prev = h;
 			x = x_new;
 			y = y_new;
 			t = t_next;
@@ -235,9 +239,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
-		result.elapsed_time_ms = timer.elapsed_ms();
+		FinishDAEResult(result, step - 1, num_steps, timer.elapsed_ms());
 
 		return result;
 	}
diff --git a/mml/algorithms/DAESolvers/DAEBDF4.h b/mml/algorithms/DAESolvers/DAEBDF4.h
index 8673ff2..1418ce0 100644
--- a/mml/algorithms/DAESolvers/DAEBDF4.h
+++ b/mml/algorithms/DAESolvers/DAEBDF4.h
@@ -61,7 +61,7 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
 		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
 		result.algorithm_name = "DAEBDF4";
@@ -81,9 +81,9 @@ namespace MML {
 
 		// BDF coefficients
 		// BDF2: x_new = (4/3)*x_n - (1/3)*x_{n-1} + (2/3)*h*f
-		constexpr Real bdf2_c0 = 4.0 / 3.0;
-		constexpr Real bdf2_c1 = -1.0 / 3.0;
-		constexpr Real bdf2_h_coeff = 2.0 / 3.0;
+		// With w = h_n / h_{n-1} other than 1 (a shortened step) the coefficients are
+		// (1+w)^2/(1+2w), -w^2/(1+2w) and (1+w)/(1+2w)
+		Real bdf2_w = 1;
 
 		// BDF4: x_new = (48/25)*x_n - (36/25)*x_{n-1} + (16/25)*x_{n-2} - (3/25)*x_{n-3} + (12/25)*h*f
 		constexpr Real bdf4_c0 = 48.0 / 25.0;
@@ -123,7 +123,9 @@ namespace MML {
 				else if (bdf_order == 2)
 				{
 					// BDF2 residual
-					h_eff = bdf2_h_coeff * h;
+					Real bdf2_c0 = (1 + bdf2_w) * (1 + bdf2_w) / (1 + 2 * bdf2_w);
+					Real bdf2_c1 = -bdf2_w * bdf2_w / (1 + 2 * bdf2_w);
+					h_eff = (1 + bdf2_w) / (1 + 2 * bdf2_w) * h;
 					for (int i = 0; i < diffDim; ++i)
 						residual[i] = x_new[i] - bdf2_c0 * xn[i] - bdf2_c1 * xn1[i] - h_eff * dxdt[i];
 				}
@@ -194,32 +196,41 @@ namespace MML {
 		Vector<Real> x_current = x0;
 		Vector<Real> y_current = y0;
 		Vector<Real> x_sub_prev = x0;  // Previous substep for BDF2
+		Real h_sub_prev = h_sub;
+
+		// Save initial condition
+		result.solution.fillValues(0, t0, x0, y0);
+		int step = 1;
 
 		// Take 3 main steps using sub-stepped BDF2
-		for (int main_step = 1; main_step <= 3 && t_current < t_end; ++main_step)
+		for (; step <= 3 && step <= num_steps && step <= config.max_steps; ++step)
 		{
-			Real h_this = std::min(h_main, t_end - t_current);
+			// The last step is shortened to end at t_end
+			Real t_main = (step == num_steps) ? t_end : t_current + h_main;
+			Real h_this = t_main - t_current;
 			Real h_substep = h_this / bootstrap_substeps;
 
 			for (int sub = 0; sub < bootstrap_substeps; ++sub)
 			{
-				Real t_next = t_current + h_substep;
+				Real t_next = (sub == bootstrap_substeps - 1) ? t_main : t_current + h_substep;
 				
 				system.diffEqs(t_current, x_current, y_current, dxdt);
 				Vector<Real> x_pred = x_current + dxdt * h_substep;
 				Vector<Real> y_pred = y_current;
 
-				int order = (main_step == 1 && sub == 0) ? 1 : 2;  // First substep uses BE
+				int order = (step == 1 && sub == 0) ? 1 : 2;  // First substep uses BE
+				bdf2_w = (step == num_steps && sub == 0) ? h_substep / h_sub_prev : Real(1);
 				if (!newtonSolve(t_next, h_substep, x_pred, x_pred, y_pred, order,
 				                 x_current, x_sub_prev, x_current, x_current))
 				{
 					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Newton failed during bootstrap at t=" + std::to_string(t_next);
-					result.elapsed_time_ms = timer.elapsed_ms();
+					FinishDAEResult(result, step - 1, num_steps, timer.elapsed_ms());
 					return result;
 				}
 
 				x_sub_prev = x_current;
+				h_sub_prev = h_substep;
 				x_current = x_pred;
 				y_current = y_pred;
 				t_current = t_next;
@@ -235,34 +246,27 @@ namespace MML {
 			x_history[0] = x_current;
 			y_history[0] = y_current;
 			t_history[0] = t_current;
-		}
 
-		// Save initial condition and bootstrap points to solution
-		result.solution.fillValues(0, t0, x0, y0);
-		for (int i = 1; i <= 3; ++i)
-		{
-			result.solution.fillValues(i, t_history[3-i], x_history[3-i], y_history[3-i]);
+			result.solution.fillValues(step, t_current, x_current, y_current);
 			result.solution.incrementSuccessfulSteps();
 		}
-		int step = 4;
 
 		// ========================================================================
 		// MAIN PHASE: BDF4 with accurate history
 		// ========================================================================
-		while (t_current < t_end && step < config.max_steps)
+		while (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(h_main, t_end - t_current);
-			
-			// Skip degenerate final steps
-			if (h < h_main * 1e-10)
-				break;
-			
-			Real t_next = t_current + h;
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t_current + h_main;
+			Real h = t_next - t_current;
 
-			// For very small final steps, fall back to lower order
+			// For a shortened final step, fall back to lower order: the BDF4 coefficients assume equal steps
 			int order = 4;
 			if (h < h_main * 0.1)
 				order = 1;  // Backward Euler for tiny final step
+			else if (h < h_main * (1 - 1e-6))
+				order = 2;
+			bdf2_w = h / h_main;
 
 			// Prediction
 			system.diffEqs(t_current, x_history[0], y_history[0], dxdt);
@@ -301,9 +305,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
-		result.elapsed_time_ms = timer.elapsed_ms();
+		FinishDAEResult(result, step - 1, num_steps, timer.elapsed_ms());
 
 		return result;
 	}
diff --git a/mml/algorithms/DAESolvers/DAEBackwardEuler.h b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
index 274598a..c119984 100644
--- a/mml/algorithms/DAESolvers/DAEBackwardEuler.h
+++ b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
@@ -65,7 +65,7 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
 		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
 		result.algorithm_name = "DAEBackwardEuler";
@@ -92,10 +92,11 @@ namespace MML {
 		result.solution.fillValues(0, t, x, y);
 		int step = 1;
 
-		while (t < t_end && step < config.max_steps)
+		while (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			Real t_next = t + h;
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t + config.step_size;
+			Real h = t_next - t;
 
 			// Initial guess for next step (explicit Euler prediction)
 			system.diffEqs(t, x, y, dxdt);
@@ -184,9 +185,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
-		result.elapsed_time_ms = timer.elapsed_ms();
+		FinishDAEResult(result, step - 1, num_steps, timer.elapsed_ms());
 
 		return result;
 	}
diff --git a/mml/algorithms/DAESolvers/DAERODAS.h b/mml/algorithms/DAESolvers/DAERODAS.h
index 3cc2dc2..c15e504 100644
--- a/mml/algorithms/DAESolvers/DAERODAS.h
+++ b/mml/algorithms/DAESolvers/DAERODAS.h
@@ -56,7 +56,7 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
 		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
 		result.algorithm_name = "DAERODAS";
@@ -92,12 +92,11 @@ namespace MML {
 		int step = 1;
 
 		// Main time-stepping loop
-		while (t < t_end && step < config.max_steps)
+		while (step <= num_steps && step <= config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
-			
-			if (h < config.step_size * 1e-10)
-				break;
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t + config.step_size;
+			Real h = t_next - t;
 
 			// Evaluate f, g and Jacobians at current point
 			system.diffEqs(t, x, y, f_curr);
@@ -182,7 +181,19 @@ namespace MML {
 			for (int i = 0; i < algDim; ++i)
 				y[i] += delta[diffDim + i];
 
-			t += h;
+			bool finite = true;
+			for (int i = 0; i < diffDim; ++i)
+				finite = finite && std::isfinite(x[i]);
+			for (int i = 0; i < algDim; ++i)
+				finite = finite && std::isfinite(y[i]);
+			if (!finite)
+			{
+				result.status = AlgorithmStatus::NumericalInstability;
+				result.error_message = "Non-finite state at t=" + std::to_string(t_next);
+				break;
+			}
+
+			t = t_next;
 
 			// Track constraint violation
 			system.algConstraints(t, x, y, g_pred);
@@ -196,9 +207,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
-		result.elapsed_time_ms = timer.elapsed_ms();
+		FinishDAEResult(result, step - 1, num_steps, timer.elapsed_ms());
 
 		return result;
 	}
diff --git a/mml/algorithms/DAESolvers/DAERadauIIA.h b/mml/algorithms/DAESolvers/DAERadauIIA.h
index 79de999..ad27286 100644
--- a/mml/algorithms/DAESolvers/DAERadauIIA.h
+++ b/mml/algorithms/DAESolvers/DAERadauIIA.h
@@ -63,7 +63,7 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = DAEStepCount(t0, t_end, config.step_size);
 
 		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
 		result.algorithm_name = "DAERadauIIA";
@@ -117,11 +117,11 @@ namespace MML {
 		Matrix<Real> dgDx(algDim, diffDim), dgDy(algDim, algDim);
 
 		int step = 1;
-		while (t + h/2 <= t_end && step < config.max_steps) {
+		while (step <= num_steps && step <= config.max_steps) {
 
-			// Clamp step size to reach t_end exactly
-			Real h_actual = std::min(h, t_end - t);
-			if (h_actual < 1e-15) break;
+			// The last step is shortened to end at t_end
+			Real t_next = (step == num_steps) ? t_end : t + h;
+			Real h_actual = t_next - t;
 
 			// Initialize stage values to current solution (predictor)
 			X1 = x; X2 = x; X3 = x;
@@ -277,7 +277,7 @@ namespace MML {
 			// Update solution using stage 3 (for Radau IIA, c3 = 1, so X3, Y3 is the solution at t+h_actual)
 			x = X3;
 			y = Y3;
-			t += h_actual;
+			t = t_next;
 
 			// Track constraint violation
 			Vector<Real> g_check(algDim);
@@ -292,9 +292,7 @@ namespace MML {
 		}
 
 		// Finalize
-		result.solution.setFinalSize(step - 1);
-		result.total_steps = step - 1;
-		result.elapsed_time_ms = timer.elapsed_ms();
+		FinishDAEResult(result, step - 1, num_steps, timer.elapsed_ms());
 
 		return result;
 	}
diff --git a/mml/algorithms/DAESolvers/DAESolverBase.h b/mml/algorithms/DAESolvers/DAESolverBase.h
index 92d2763..ab78a69 100644
--- a/mml/algorithms/DAESolvers/DAESolverBase.h
+++ b/mml/algorithms/DAESolvers/DAESolverBase.h
@@ -98,6 +98,23 @@ namespace MML {
 			: solution(t0, t_end, diffDim, algDim, num_steps) {}
 	};
 
+	/// @brief Number of steps of size h from t0 to t_end; the last one may be shorter and ends at t_end
+	inline int DAEStepCount(Real t0, Real t_end, Real h) {
+		Real ratio = (t_end - t0) / h;
+		return std::max(0, static_cast<int>(std::ceil(ratio - Real(1e-9) * std::max<Real>(Real(1), std::abs(ratio)))));
+	}
+
+	/// @brief Fill in the statistics after `steps_done` of `num_steps` steps; stopping early is reported in the status
+	inline void FinishDAEResult(DAESolverResult& result, int steps_done, int num_steps, double elapsed_ms) {
+		result.solution.setFinalSize(steps_done);
+		result.total_steps = steps_done;
+		result.elapsed_time_ms = elapsed_ms;
+		if (steps_done < num_steps && result.status == AlgorithmStatus::Success) {
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum steps (" + std::to_string(steps_done) + ") reached before the final time";
+		}
+	}
+
 	/******************************************************************************/
 	/*****            Consistent Initial Condition Solver                     *****/
 	/******************************************************************************/
-- 
2.43.0


From 0fff474377e30c78cffa8031de37b61013e0528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 33/59] fix: shooting solvers set the result status on failure

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 4466201..a79c4a9 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -200,6 +200,7 @@ namespace MML {
 				if (!bracketed) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::BracketingFailed;
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					result.failureDetails = "Could not bracket root with initial guesses [" + 
 						std::to_string(shootGuess1) + ", " + std::to_string(shootGuess2) + 
 						"] even after expanding range";
@@ -225,9 +226,16 @@ namespace MML {
 				Vector<Real> finalState = result.solution.getXValuesAtEnd();
 				result.residual = std::abs(finalState[targetIndex] - targetValue);
 				result.failureReason = BVPFailureReason::None;
+				if (!std::isfinite(result.residual)) {
+					result.converged = false;
+					result.failureReason = BVPFailureReason::NumericalInstability;
+					result.failureDetails = "Final residual is not finite";
+					result.status = AlgorithmStatus::NumericalInstability;
+				}
 			} catch (const std::exception& e) {
 				result.converged = false;
 				result.failureReason = BVPFailureReason::RootFindingFailed;
+				result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 				result.failureDetails = e.what();
 				result.residual = std::numeric_limits<Real>::max();
 			}
@@ -431,6 +439,7 @@ namespace MML {
 			if (!config.isValid()) {
 				result.converged = false;
 				result.failureReason = BVPFailureReason::InvalidConfiguration;
+				result.status = AlgorithmStatus::InvalidInput;
 				result.failureDetails = "Shooting configuration invalid: unknownIndices, targetIndices, "
 					"unknownGuesses, and targetValues must all have same non-zero size";
 				result.elapsed_time_ms = timer.elapsed_ms();
@@ -478,6 +487,7 @@ namespace MML {
 				if (!std::isfinite(residualNorm)) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::NumericalInstability;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.failureDetails = "Residual norm became NaN/Inf at iteration " + 
 						std::to_string(iter);
 					break;
@@ -502,6 +512,7 @@ namespace MML {
 				if (!linearResult.success) {
 					result.converged = false;
 					result.failureReason = BVPFailureReason::SingularJacobian;
+					result.status = AlgorithmStatus::SingularMatrix;
 					result.failureDetails = linearResult.errorMessage;
 					break;
 				}
@@ -517,6 +528,7 @@ namespace MML {
 			// Check if we exceeded max iterations without converging
 			if (!result.converged && result.failureReason == BVPFailureReason::None) {
 				result.failureReason = BVPFailureReason::MaxIterationsExceeded;
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
 				result.failureDetails = "Did not converge within " + std::to_string(_maxIterations) + 
 					" iterations. Final residual norm: " + std::to_string(residualNorm) + 
 					" (tolerance: " + std::to_string(_tolerance) + ")";
-- 
2.43.0


From d375692a04a6cf13919e6f8e8ca5ad0030147233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 34/59] fix: dynamical system analysis restores parameters,
 terminates and honours check_finite

---
 mml/systems/DynamicalSystemAnalyzers.h | 56 +++++++++++++++++++++++---
 mml/systems/DynamicalSystemTypes.h     | 12 +++---
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 0554c7f..7e5288c 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -74,7 +74,7 @@ namespace MML::Systems
 					LUSolver<Real> solver(J);
 					Vector<Real> negF = f * (-1.0);
 					dx = solver.Solve(negF);
-				} catch (...) {
+				} catch (const SingularMatrixError&) {
 					// Jacobian singular - can't continue
 					result.type = FixedPointType::Unknown;
 					result.convergenceResidual = residual;
@@ -424,7 +424,18 @@ namespace MML::Systems
 																					Vector<Real> x0, int component, Real tTransient = 100.0, Real tRecord = 50.0, Real h = 0.01) {
 			BifurcationDiagram<Real> diagram;
 			diagram.parameterName = sys.getParamName(paramIndex);
-			Real originalParam = sys.getParam(paramIndex);			Real dParam = (paramMax - paramMin) / (numSteps - 1);
+			Real originalParam = sys.getParam(paramIndex);
+			Real dParam = numSteps > 1 ? (paramMax - paramMin) / (numSteps - 1) : Real(0);
+
+			// The swept parameter is put back however the sweep ends
+			struct ParamRestorer {
+				IDynamicalSystem& sys;
+				int index;
+				Real value;
+				~ParamRestorer() {
+					try { sys.setParam(index, value); } catch (...) {}
+				}
+			} restorer{ sys, paramIndex, originalParam };
 
 			for (int step = 0; step < numSteps; ++step) {
 				Real param = paramMin + step * dParam;
@@ -444,7 +455,6 @@ namespace MML::Systems
 				x0 = x;
 			}
 
-			sys.setParam(paramIndex, originalParam);
 			return diagram;
 		}
 
@@ -526,8 +536,11 @@ namespace MML::Systems
 	class PhaseSpaceAnalyzer {
 	public:
 		/// @brief Compute Poincaré section intersections
+		/// Stops with fewer than numIntersections when the trajectory leaves the finite range, or does not
+		/// cross the section within maxStepsPerIntersection steps.
 		static std::vector<Vector<Real>> ComputePoincareSection(IDynamicalSystem& sys, const Vector<Real>& x0,
-																														const PoincareSection<Real>& section, int numIntersections, Real h = 0.01) {
+																														const PoincareSection<Real>& section, int numIntersections, Real h = 0.01,
+																														long maxStepsPerIntersection = 1000000) {
 			std::vector<Vector<Real>> intersections;
 			int n = sys.getDim();
 
@@ -537,6 +550,7 @@ namespace MML::Systems
 
 			Real t = 0;
 			int count = 0;
+			long stepsSinceCrossing = 0;
 
 			// Skip initial transient
 			Real tTransient = 100.0;
@@ -556,6 +570,9 @@ namespace MML::Systems
 
 				Real val = x[section.variable] - section.value;
 
+				if (!std::isfinite(val) || ++stepsSinceCrossing > maxStepsPerIntersection)
+					break;
+
 				// Check for crossing
 				if (valPrev * val < 0) {
 					// Check direction
@@ -571,6 +588,7 @@ namespace MML::Systems
 
 						intersections.push_back(xCross);
 						count++;
+						stepsSinceCrossing = 0;
 					}
 				}
 			}
@@ -677,6 +695,18 @@ namespace MML::Systems
 	///////////////////////////////////////////////////////////////////////////////////////////
 	namespace DynSysDetail
 	{
+		/// Report numerical instability if any of the values is not finite
+		template<typename ResultType, typename Values>
+		void RequireFinite(ResultType& result, const Values& values)
+		{
+			for (int i = 0; i < static_cast<int>(values.size()); ++i)
+				if (!std::isfinite(values[i])) {
+					result.status = AlgorithmStatus::NumericalInstability;
+					result.error_message = "Non-finite values in the result";
+					return;
+				}
+		}
+
 		/// Execute a dynamical system Detailed operation with timing and exception handling.
 		template<typename ResultType, typename ComputeFn>
 		ResultType ExecuteDynSysDetailed(const char* algorithm_name,
@@ -721,7 +751,7 @@ namespace MML::Systems
 				result.fixed_point = FixedPointFinder::Find(sys, initialGuess, tol, maxIter);
 				result.function_evaluations = result.fixed_point.iterations;
 
-				if (result.fixed_point.convergenceResidual >= tol) {
+				if (!(result.fixed_point.convergenceResidual < tol)) {
 					result.status = AlgorithmStatus::MaxIterationsExceeded;
 					result.error_message = "Newton iteration did not converge (residual="
 						+ std::to_string(result.fixed_point.convergenceResidual) + ")";
@@ -743,6 +773,8 @@ namespace MML::Systems
 			[&](LyapunovAnalysisResult<Real>& result) {
 				result.lyapunov = LyapunovAnalyzer::Compute(sys, x0, tTotal, dtOrthonormalize, h);
 				result.function_evaluations = result.lyapunov.numOrthonormalizations;
+				if (config.check_finite)
+					DynSysDetail::RequireFinite(result, result.lyapunov.exponents);
 			});
 	}
 
@@ -766,6 +798,9 @@ namespace MML::Systems
 				result.diagram = BifurcationAnalyzer::Sweep(sys, paramIndex, paramMin, paramMax,
 					numSteps, x0, component, tTransient, tRecord, h);
 				result.function_evaluations = numSteps;
+				if (config.check_finite)
+					for (const auto& values : result.diagram.attractorValues)
+						DynSysDetail::RequireFinite(result, values);
 			});
 	}
 
@@ -784,6 +819,14 @@ namespace MML::Systems
 				result.intersections = PhaseSpaceAnalyzer::ComputePoincareSection(
 					sys, x0, section, numIntersections, h);
 				result.function_evaluations = numIntersections;
+				if (static_cast<int>(result.intersections.size()) < numIntersections) {
+					result.status = AlgorithmStatus::MaxIterationsExceeded;
+					result.error_message = "Found " + std::to_string(result.intersections.size()) + " of "
+						+ std::to_string(numIntersections) + " section crossings";
+				}
+				else if (config.check_finite)
+					for (const auto& point : result.intersections)
+						DynSysDetail::RequireFinite(result, point);
 			});
 	}
 
@@ -801,6 +844,9 @@ namespace MML::Systems
 			[&](TrajectoryResult<Real>& result) {
 				result.points = PhaseSpaceAnalyzer::IntegrateTrajectory(sys, x0, tTotal, dtOutput, h);
 				result.function_evaluations = static_cast<int>(result.points.size());
+				if (config.check_finite)
+					for (const auto& point : result.points)
+						DynSysDetail::RequireFinite(result, point);
 			});
 	}
 
diff --git a/mml/systems/DynamicalSystemTypes.h b/mml/systems/DynamicalSystemTypes.h
index 48e02b2..cbc7d89 100644
--- a/mml/systems/DynamicalSystemTypes.h
+++ b/mml/systems/DynamicalSystemTypes.h
@@ -76,10 +76,10 @@ namespace MML::Systems
 		Vector<Type> location;											 ///< Position in state space
 		std::vector<std::complex<Type>> eigenvalues; ///< Jacobian eigenvalues
 		Matrix<Type> jacobian;											 ///< Jacobian at fixed point
-		FixedPointType type;												 ///< Stability classification
-		bool isStable;															 ///< Overall stability
-		Type convergenceResidual;										 ///< ||f(x*)|| at convergence
-		int iterations;															 ///< Newton iterations used
+		FixedPointType type = FixedPointType::Unknown;	 ///< Stability classification
+		bool isStable = false;											 ///< Overall stability
+		Type convergenceResidual = 0;								 ///< ||f(x*)|| at convergence
+		int iterations = 0;													 ///< Newton iterations used
 	};
 
 	/// @brief Result of Lyapunov exponent computation
@@ -100,8 +100,8 @@ namespace MML::Systems
 		std::string parameterName;											///< Name of swept parameter
 		std::vector<Type> parameterValues;							///< Parameter values
 		std::vector<std::vector<Type>> attractorValues; ///< Attractor points at each param
-		int numTransientSteps;													///< Transient removal steps
-		int numRecordedPoints;													///< Points recorded per parameter
+		int numTransientSteps = 0;											///< Transient removal steps
+		int numRecordedPoints = 0;											///< Points recorded per parameter
 	};
 
 	/// @brief Poincaré section definition
-- 
2.43.0


From 212e953c3bf371c4c376ac21d7dbcfeebdcc6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 35/59] fix: Bulirsch-Stoer extrapolation adds its corrections
 to the newest estimate

---
 mml/algorithms/ODESolvers/ODESteppers.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 0135f40..662720f 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -848,8 +848,10 @@ namespace MML {
 					_d[0][j] = yest[j];
 				}
 			} else {
-				// Use Neville's algorithm
+				// Use Neville's algorithm: corrections are added to the newest estimate
 				Vector<Real> c = yest;
+				yz = yest;
+				dy = yest;
 
 				for (int k = 0; k < iest; k++) {
 					Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -862,13 +864,12 @@ namespace MML {
 						delta = c[j] - q;
 						dy[j] = f1 * delta;
 						c[j] = f2 * delta;
+						yz[j] += dy[j];
 					}
 				}
 
-				for (int j = 0; j < _n; j++) {
-					yz[j] += dy[j];
+				for (int j = 0; j < _n; j++)
 					_d[iest][j] = dy[j];
-				}
 			}
 		}
 
@@ -1076,8 +1077,10 @@ namespace MML {
 			}
 
 			// Use Neville's polynomial extrapolation (same as pzextr)
-			// This is more stable than rational extrapolation
+			// This is more stable than rational extrapolation; corrections are added to the newest estimate
 			Vector<Real> c = yest;
+			yz = yest;
+			dy = yest;
 
 			for (int k = 0; k < iest; k++) {
 				Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -1090,13 +1093,12 @@ namespace MML {
 					Real diff = c[j] - q;
 					dy[j] = f1 * diff;
 					c[j] = f2 * diff;
+					yz[j] += dy[j];
 				}
 			}
 
-			for (int j = 0; j < _n; j++) {
-				yz[j] += dy[j];
+			for (int j = 0; j < _n; j++)
 				_d[iest][j] = dy[j];
-			}
 		}
 
 	public:
-- 
2.43.0


From 082a053d4c8e5b07d832f5618b6de08f2b4f32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 36/59] fix: fixed-step stiff solvers honour max_steps

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 34 +++++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 9e38b35..f3d744f 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -146,13 +146,15 @@ namespace MML {
 	/// @param h Step size (fixed)
 	/// @param max_newton_iter Maximum Newton iterations per step (default: 10)
 	/// @param newton_tol Newton convergence tolerance (default: 1e-8)
+	/// @param max_steps Maximum number of steps; the points computed up to there are returned
 	/// @return ODESystemSolution containing solution trajectory
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
-												int max_newton_iter = 10, Real newton_tol = 1e-8) {
+												int max_newton_iter = 10, Real newton_tol = 1e-8, int max_steps = std::numeric_limits<int>::max()) {
 		int dim = y0.size();
 		int num_steps = StiffStepCount(t0, t_end, h);
+		int last_step = std::min(num_steps, max_steps);
 
-		ODESystemSolution sol(t0, t_end, dim, num_steps);
+		ODESystemSolution sol(t0, t_end, dim, last_step);
 
 		Real t = t0;
 		Vector<Real> y = y0;
@@ -163,7 +165,7 @@ namespace MML {
 		sol.fillValues(0, t, y);
 		int step = 1;
 
-		while (step <= num_steps) {
+		while (step <= last_step) {
 			// The last step is shortened to end at t_end
 			Real t_next = (step == num_steps) ? t_end : t + h;
 			Real h_actual = t_next - t;
@@ -227,13 +229,17 @@ namespace MML {
 
 		int dim = y0.size();
 		int num_steps = StiffStepCount(t0, t_end, config.step_size);
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, std::min(num_steps, config.max_steps));
 		result.algorithm_name = "BackwardEuler";
 
 		try {
 			result.solution = SolveBackwardEuler(system, t0, y0, t_end, config.step_size, 
-												 config.max_newton_iter, config.newton_tol);
+												 config.max_newton_iter, config.newton_tol, config.max_steps);
 			result.total_steps = result.solution.getNumStepsOK();
+			if (result.total_steps < num_steps) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "Maximum steps (" + std::to_string(config.max_steps) + ") reached before the final time";
+			}
 		} catch (const std::exception& e) {
 			result.status = AlgorithmStatus::NumericalInstability;
 			result.error_message = e.what();
@@ -259,13 +265,15 @@ namespace MML {
 	/// @param h Step size (fixed)
 	/// @param max_newton_iter Maximum Newton iterations per step (default: 10)
 	/// @param newton_tol Newton convergence tolerance (default: 1e-8)
+	/// @param max_steps Maximum number of steps; the points computed up to there are returned
 	/// @return ODESystemSolution containing solution trajectory
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
-									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
+									   int max_newton_iter = 10, Real newton_tol = 1e-8, int max_steps = std::numeric_limits<int>::max()) {
 		int dim = y0.size();
 		int num_steps = StiffStepCount(t0, t_end, h);
+		int last_step = std::min(num_steps, max_steps);
 
-		ODESystemSolution sol(t0, t_end, dim, num_steps);
+		ODESystemSolution sol(t0, t_end, dim, last_step);
 
 		Real t = t0;
 		Vector<Real> y = y0;
@@ -279,7 +287,7 @@ namespace MML {
 
 		// First step: Use Backward Euler (BDF1) to bootstrap
 		Real h_prev = h;
-		if (step <= num_steps) {
+		if (step <= last_step) {
 			Real t_next = (step == num_steps) ? t_end : t + h;
 			Real h_actual = t_next - t;
 			h_prev = h_actual;
@@ -319,7 +327,7 @@ namespace MML {
 		}
 
 		// Subsequent steps: Use BDF2
-		while (step <= num_steps) {
+		while (step <= last_step) {
 			// The last step is shortened to end at t_end
 			Real t_next = (step == num_steps) ? t_end : t + h;
 			Real h_actual = t_next - t;
@@ -387,13 +395,17 @@ namespace MML {
 
 		int dim = y0.size();
 		int num_steps = StiffStepCount(t0, t_end, config.step_size);
-		StiffSolverResult result(t0, t_end, dim, num_steps);
+		StiffSolverResult result(t0, t_end, dim, std::min(num_steps, config.max_steps));
 		result.algorithm_name = "BDF2";
 
 		try {
 			result.solution = SolveBDF2(system, t0, y0, t_end, config.step_size, 
-										config.max_newton_iter, config.newton_tol);
+										config.max_newton_iter, config.newton_tol, config.max_steps);
 			result.total_steps = result.solution.getNumStepsOK();
+			if (result.total_steps < num_steps) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
+				result.error_message = "Maximum steps (" + std::to_string(config.max_steps) + ") reached before the final time";
+			}
 		} catch (const std::exception& e) {
 			result.status = AlgorithmStatus::NumericalInstability;
 			result.error_message = e.what();
-- 
2.43.0


From c7fd3216c2a287e47e8f590735378654a050966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 37/59] fix: event integration reports events at the instant of
 a restart

---
 .../ODESolvers/ODESolverEventDetection.h      | 62 +++++++++++++------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index ad7c021..02487c0 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -126,7 +126,7 @@ namespace MML {
 				}
 			};
 
-			int onSurface = -1; // Event whose function a restart left at its zero
+			std::vector<bool> onSurface(numEvents, false); // Events whose function a restart left at its zero
 			const int maxEventIterations = 100; // Safety limit for root finding
 
 			// Main integration loop
@@ -146,11 +146,13 @@ namespace MML {
 					Vector<Real> gNew(numEvents);
 					sys.eventFunctions(tNew, x, gNew);
 
-					// A restart left this event function at its zero: it continues on the side it moves to
-					if (onSurface >= 0) {
+					// A restart left these event functions at their zero: they continue on the side they move to
+					for (int i = 0; i < numEvents; ++i) {
+						if (!onSurface[i])
+							continue;
 						Real tSide = t + Real(0.001) * stepResult.hDone;
-						gPrev[onSurface] = sys.eventFunction(onSurface, tSide, this->_stepper.interpolate(tSide));
-						onSurface = -1;
+						gPrev[i] = sys.eventFunction(i, tSide, this->_stepper.interpolate(tSide));
+						onSurface[i] = false;
 					}
 
 					// Check for zero crossings: a step may contain crossings of several event functions
@@ -216,16 +218,35 @@ namespace MML {
 					std::sort(crossings.begin(), crossings.end());
 
 					bool restarted = false;
+					const Vector<Real> gBefore = gPrev;
+					const Real sameInstant = 2 * eventTol + 8 * Constants::Eps * std::abs(tNew);
+					std::vector<EventInfo> reported;
 					for (const auto& found : crossings) {
 						Real eventTime = found.first;
 						int eventIndex = found.second;
 
+						// After a restart only events at that same instant are due, later ones are looked for
+						// again from there
+						if (restarted && eventTime - t > sameInstant)
+							break;
+
 						// Get precise state at event
+						if (restarted)
+							eventTime = t;
 						Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
 						Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
 
+						if (restarted) {
+							// The restart may have moved the state off this event's surface
+							Real gRestart = sys.eventFunction(eventIndex, t, x);
+							if (!(std::abs(gRestart) <= std::abs(gEvent) + eventTol))
+								continue;
+							xEvent = x;
+							gEvent = gRestart;
+						}
+
 						EventDirection actualDir;
-						if (gPrev[eventIndex] < gNew[eventIndex]) {
+						if (gBefore[eventIndex] < gNew[eventIndex]) {
 							actualDir = EventDirection::Increasing;
 						} else {
 							actualDir = EventDirection::Decreasing;
@@ -234,6 +255,7 @@ namespace MML {
 						// Record event
 						EventInfo evt(eventIndex, eventTime, xEvent, actualDir, gEvent);
 						result.events.push_back(evt);
+						reported.push_back(evt);
 
 						// Dense output up to event time
 						outputUpTo(eventTime);
@@ -253,23 +275,25 @@ namespace MML {
 							// Reset integration from event point
 							t = eventTime;
 							x = xEvent;
-							sys.derivs(t, x, dxdt);
-							sys.eventFunctions(t, x, gPrev);
-							// The handler left the state on the event surface: the crossing just handled must not fire again
-							if (std::abs(gPrev[eventIndex]) <= std::abs(gEvent) + eventTol)
-								onSurface = eventIndex;
-							this->_stepper.resetFSAL();
-
-							// Re-estimate step size
-							h = this->estimateInitialStep(t, x, tEnd, eps);
-							h = std::min(h, tEnd - t);
 							restarted = true;
-							break; // Later crossings of this step are looked for again from here
 						}
 						// EventAction::Continue: go on with the next crossing
 					}
-					if (restarted)
+					if (restarted) {
+						sys.derivs(t, x, dxdt);
+						sys.eventFunctions(t, x, gPrev);
+						this->_stepper.resetFSAL();
+
+						// Re-estimate step size
+						h = this->estimateInitialStep(t, x, tEnd, eps);
+						h = std::min(h, tEnd - t);
+
+						// A crossing just reported must not fire again where its event function still is at its zero
+						for (const auto& evt : reported)
+							if (t - evt.time <= sameInstant && std::abs(gPrev[evt.eventIndex]) <= std::abs(evt.eventValue) + eventTol)
+								onSurface[evt.eventIndex] = true;
 						continue; // Skip normal update
+					}
 
 					// Dense output for this step
 					outputUpTo(tNew);
@@ -293,7 +317,7 @@ namespace MML {
 				result.solution.fillValues(outputIdx++, tOut, x);
 			}
 
-			result.finalTime = t;
+			result.finalTime = std::max(t, tEnd);
 			result.finalState = x;
 			return result;
 		}
-- 
2.43.0


From aa6daca87e68c57821d46c3df9d21220a93ba72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 38/59] fix: MML_VISUALIZER_BACKEND=AUTO made every
 visualization fail instead of selecting the platform default

---
 mml/MMLVisualizators.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mml/MMLVisualizators.h b/mml/MMLVisualizators.h
index 1bfc6af..7f14154 100644
--- a/mml/MMLVisualizators.h
+++ b/mml/MMLVisualizators.h
@@ -176,6 +176,8 @@ namespace MML
   /// 
   /// @return Current backend selection (never returns Auto, always resolves to concrete backend)
   inline VisualizerBackend GetVisualizerBackend() {
+    bool useAuto = false;
+
     // 1. Check environment variable for override
     if (const char* envBackend = GetEnv("MML_VISUALIZER_BACKEND")) {
       std::string backend(envBackend);
@@ -186,11 +188,11 @@ namespace MML
       if (backend == "QT" || backend == "QT5" || backend == "QT6") 
         return VisualizerBackend::Qt;
       if (backend == "FLTK") return VisualizerBackend::FLTK;
-      if (backend == "AUTO") return VisualizerBackend::Auto;
+      if (backend == "AUTO") useAuto = true;  // resolved to the platform default below
     }
     
     // 2. Get runtime setting
-    VisualizerBackend backend = detail::GetUnifiedBackendState();
+    VisualizerBackend backend = useAuto ? VisualizerBackend::Auto : detail::GetUnifiedBackendState();
     
     // 3. Resolve Auto to platform default
     if (backend == VisualizerBackend::Auto) {
-- 
2.43.0


From d1b68a819fc910dc68795615ae65ce256701c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 39/59] fix: visualizer file lookups threw filesystem_error for
 paths that cannot be looked up

---
 mml/tools/Visualizer.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mml/tools/Visualizer.h b/mml/tools/Visualizer.h
index 9862cb0..41219a7 100644
--- a/mml/tools/Visualizer.h
+++ b/mml/tools/Visualizer.h
@@ -88,17 +88,27 @@ namespace MML {
 		static std::string pathScalarFunc3DViz() { return GetScalarFunction3DVisualizerPath(); }
 		static std::string pathRigidBodyViz() { return GetRigidBodyVisualizerPath(); }
 
+		// Helper: true if the path names something that exists; a path that cannot be
+		// looked up (too long, no permission, I/O error) counts as not found
+		static bool FileExists(const std::string& path) {
+			std::error_code ec;
+			return std::filesystem::exists(path, ec);
+		}
+
 		// Helper: resolve a file path for "FromFile" methods.
 		// Tries the path as-is first (absolute or relative), then falls back to the results folder.
 		// Returns the resolved path, or empty string if the file is not found anywhere.
 		static std::string ResolveFilePath(const std::string& fileNameOrPath) {
 			// 1. Try as-is (absolute path or relative to cwd)
-			if (std::filesystem::exists(fileNameOrPath))
-				return std::filesystem::weakly_canonical(fileNameOrPath).string();
+			if (FileExists(fileNameOrPath)) {
+				std::error_code ec;
+				std::string canonical = std::filesystem::weakly_canonical(fileNameOrPath, ec).string();
+				return ec ? fileNameOrPath : canonical;
+			}
 
 			// 2. Try in results folder (legacy: bare filename)
 			std::string inResults = MakeSafeOutputPath(fileNameOrPath);
-			if (!inResults.empty() && std::filesystem::exists(inResults))
+			if (!inResults.empty() && FileExists(inResults))
 				return inResults;
 
 			return {};  // not found
@@ -1046,7 +1056,7 @@ namespace MML {
 		/// @return VisualizerResult indicating success or failure
 		static VisualizerResult VisualizeRigidBodyTrajectory(std::string fileName) {
 			// First try as-is (for full paths)
-			if (std::filesystem::exists(fileName)) {
+			if (FileExists(fileName)) {
 				return ExecuteVisualizer(pathRigidBodyViz(), {fileName});
 			}
 			// Try in results folder
@@ -1054,7 +1064,7 @@ namespace MML {
 			if (name.empty()) {
 				return VisualizerResult::Failure("Invalid filename: path escapes results folder", fileName);
 			}
-			if (!std::filesystem::exists(name)) {
+			if (!FileExists(name)) {
 				return VisualizerResult::Failure("Data file not found: " + name, name);
 			}
 			return ExecuteVisualizer(pathRigidBodyViz(), {name});
@@ -1069,7 +1079,7 @@ namespace MML {
 			std::vector<std::string> validPaths;
 			for (const auto& fileName : fileNames) {
 				// First try as-is (for full paths)
-				if (std::filesystem::exists(fileName)) {
+				if (FileExists(fileName)) {
 					validPaths.push_back(fileName);
 					continue;
 				}
@@ -1078,7 +1088,7 @@ namespace MML {
 				if (name.empty()) {
 					return VisualizerResult::Failure("Invalid filename: path escapes results folder", fileName);
 				}
-				if (!std::filesystem::exists(name)) {
+				if (!FileExists(name)) {
 					return VisualizerResult::Failure("Data file not found: " + name, name);
 				}
 				validPaths.push_back(name);
-- 
2.43.0


From e5b393d9495c29f91933e987f318e59304b7ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 40/59] fix: visualizer data files were written through
 dangling symbolic links out of the results folder

---
 mml/tools/Visualizer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mml/tools/Visualizer.h b/mml/tools/Visualizer.h
index 41219a7..9eab2af 100644
--- a/mml/tools/Visualizer.h
+++ b/mml/tools/Visualizer.h
@@ -195,6 +195,10 @@ namespace MML {
 					// Path escapes the results folder - return empty (will cause failure)
 					return "";
 				}
+				// A dangling symbolic link is not resolved above, but writing would follow it
+				if (std::filesystem::is_symlink(canonical)) {
+					return "";
+				}
 			} catch (const std::filesystem::filesystem_error&) {
 				// Path resolution failed - return empty
 				return "";
@@ -221,6 +225,9 @@ namespace MML {
 				if (mismatch.first != canonicalResults.end()) {
 					return "";
 				}
+				if (std::filesystem::is_symlink(canonical)) {
+					return "";
+				}
 			} catch (const std::filesystem::filesystem_error&) {
 				return "";
 			}
-- 
2.43.0


From 3e6b6857412fc73b148e770f12059b7df921825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 41/59] fix: visualizer launch reported success for failed or
 killed children, was confused by EINTR and allocated between fork and exec

---
 mml/tools/Visualizer.h | 154 ++++++++++++++++++++++++-----------------
 1 file changed, 90 insertions(+), 64 deletions(-)

diff --git a/mml/tools/Visualizer.h b/mml/tools/Visualizer.h
index 9eab2af..8ab6d77 100644
--- a/mml/tools/Visualizer.h
+++ b/mml/tools/Visualizer.h
@@ -25,6 +25,7 @@
 
 #include <filesystem>
 #include <algorithm>
+#include <cerrno>
 #include <string>
 #include <vector>
 
@@ -37,6 +38,9 @@
 #include <signal.h>
 #include <sys/types.h>
 #include <sys/wait.h>
+#ifndef __linux__
+extern char** environ;  // declared by <unistd.h> on Linux only
+#endif
 #endif
 
 
@@ -327,6 +331,31 @@ namespace MML {
 			return VisualizerResult::Success(args.empty() ? "" : args[0]);
 		}
 #else
+		// Helper: waitpid that is not disturbed by signals delivered to the caller
+		static pid_t WaitForChild(pid_t pid, int* status, int options) {
+			pid_t result;
+			do {
+				result = waitpid(pid, status, options);
+			} while (result < 0 && errno == EINTR);
+			return result;
+		}
+
+		// Helper: translate the wait status of an ended visualizer into a result
+		static VisualizerResult ResultFromWaitStatus(int status, const std::string& dataPath) {
+			if (WIFEXITED(status)) {
+				int exitCode = WEXITSTATUS(status);
+				if (exitCode == 0)
+					return VisualizerResult::Success(dataPath);
+				if (exitCode == 127)
+					return VisualizerResult::Failure("Failed to execute visualizer", dataPath, 127);
+				return VisualizerResult::Failure("Visualizer exited with code " + std::to_string(exitCode), dataPath, exitCode);
+			}
+			if (WIFSIGNALED(status))
+				return VisualizerResult::Failure("Visualizer was terminated by signal " + std::to_string(WTERMSIG(status)),
+																				 dataPath, -WTERMSIG(status));
+			return VisualizerResult::Failure("Visualizer ended abnormally", dataPath, -1);
+		}
+
 		// Safe process execution without shell - POSIX implementation
 		/// @brief Execute visualizer on POSIX with optional timeout
 		/// @param executable Path to the visualizer executable
@@ -379,58 +408,69 @@ namespace MML {
 				}
 				
 				// Parent: wait for 'open -W' to return (it waits for the app to quit)
-				int status;
-				waitpid(pid, &status, 0);
-				if (WIFEXITED(status) && WEXITSTATUS(status) == 127) {
-					return VisualizerResult::Failure("Failed to launch app bundle via open", 
-																				  args.empty() ? "" : args[0], 127);
+				int status = 0;
+				if (WaitForChild(pid, &status, 0) != pid) {
+					return VisualizerResult::Failure("Error waiting for process", args.empty() ? "" : args[0], -1);
 				}
-				return VisualizerResult::Success(args.empty() ? "" : args[0]);
+				return ResultFromWaitStatus(status, args.empty() ? "" : args[0]);
 			}
 			// Fall through for non-.app executables (e.g., FLTK plain binaries)
 #endif
 
+			// Everything the child needs is prepared before fork(): between fork() and execve() only
+			// async-signal-safe calls are allowed, and nothing may throw inside the child
+			const std::string dataPath = args.empty() ? "" : args[0];
+			std::string exePath = NormalizePath(executable);
+			std::vector<std::string> normalizedArgs;
+			for (const auto& arg : args) {
+				normalizedArgs.push_back(NormalizePath(arg));
+			}
+			std::vector<char*> argv;
+			argv.push_back(const_cast<char*>(exePath.c_str()));
+			for (auto& arg : normalizedArgs) {
+				argv.push_back(const_cast<char*>(arg.c_str()));
+			}
+			argv.push_back(nullptr);
+
+			std::vector<std::string> envStrings;
+#ifdef __linux__
+			// Set Qt environment variables for the child process (Linux only)
+			// Qt visualizers need LD_LIBRARY_PATH, QT_PLUGIN_PATH, and
+			// QT_QPA_PLATFORM_PLUGIN_PATH to find bundled Qt libs and plugins
+			std::string exeDir = exePath.substr(0, exePath.find_last_of('/'));
+
+			// Prepend to existing LD_LIBRARY_PATH if it exists
+			const char* existingLdPath = getenv("LD_LIBRARY_PATH");
+			envStrings.push_back("LD_LIBRARY_PATH=" + exeDir + "/lib" + (existingLdPath ? ":" + std::string(existingLdPath) : ""));
+			envStrings.push_back("QT_PLUGIN_PATH=" + exeDir + "/plugins");
+			envStrings.push_back("QT_QPA_PLATFORM_PLUGIN_PATH=" + exeDir + "/plugins/platforms");
+#endif
+			std::vector<char*> envp;
+			for (auto& entry : envStrings) {
+				envp.push_back(const_cast<char*>(entry.c_str()));
+			}
+			for (char** entry = environ; entry && *entry; ++entry) {
+				std::string current(*entry);
+				std::string key = current.substr(0, current.find('=') + 1);
+				bool replaced = false;
+				for (const auto& own : envStrings) {
+					if (own.compare(0, key.size(), key) == 0)
+						replaced = true;
+				}
+				if (!replaced)
+					envp.push_back(*entry);
+			}
+			envp.push_back(nullptr);
+
 			pid_t pid = fork();
 
 			if (pid < 0) {
-				return VisualizerResult::Failure("Failed to fork process", args.empty() ? "" : args[0], -1);
+				return VisualizerResult::Failure("Failed to fork process", dataPath, -1);
 			}
 
 			if (pid == 0) {
 				// Child process
-				std::vector<char*> argv;
-				std::string exePath = NormalizePath(executable);
-				argv.push_back(const_cast<char*>(exePath.c_str()));
-
-				std::vector<std::string> normalizedArgs;
-				for (const auto& arg : args) {
-					normalizedArgs.push_back(NormalizePath(arg));
-				}
-				for (auto& arg : normalizedArgs) {
-					argv.push_back(const_cast<char*>(arg.c_str()));
-				}
-				argv.push_back(nullptr);
-
-#ifdef __linux__
-				// Set Qt environment variables for the child process (Linux only)
-				// Qt visualizers need LD_LIBRARY_PATH, QT_PLUGIN_PATH, and
-				// QT_QPA_PLATFORM_PLUGIN_PATH to find bundled Qt libs and plugins
-				std::string exeDir = exePath.substr(0, exePath.find_last_of('/'));
-				std::string libPath = exeDir + "/lib";
-				std::string pluginPath = exeDir + "/plugins";
-				std::string platformPath = exeDir + "/plugins/platforms";
-				
-				// Prepend to existing LD_LIBRARY_PATH if it exists
-				const char* existingLdPath = getenv("LD_LIBRARY_PATH");
-				std::string fullLdPath = existingLdPath 
-					? libPath + ":" + std::string(existingLdPath) 
-					: libPath;
-				setenv("LD_LIBRARY_PATH", fullLdPath.c_str(), 1);
-				setenv("QT_PLUGIN_PATH", pluginPath.c_str(), 1);
-				setenv("QT_QPA_PLATFORM_PLUGIN_PATH", platformPath.c_str(), 1);
-#endif
-
-				execv(exePath.c_str(), argv.data());
+				execve(exePath.c_str(), argv.data(), envp.data());
 
 				// If execv returns, it failed
 				_exit(127);
@@ -440,16 +480,11 @@ namespace MML {
 			if (timeout_ms < 0) {
 				// Infinite wait mode (matches Windows INFINITE behavior)
 				// Wait for the visualizer to close before returning
-				int status;
-				pid_t result = waitpid(pid, &status, 0);  // Blocking wait
-				if (result == pid && WIFEXITED(status)) {
-					int exitCode = WEXITSTATUS(status);
-					if (exitCode == 127) {
-						return VisualizerResult::Failure("Failed to execute visualizer", 
-																					  args.empty() ? "" : args[0], 127);
-					}
+				int status = 0;
+				if (WaitForChild(pid, &status, 0) != pid) {  // Blocking wait
+					return VisualizerResult::Failure("Error waiting for process", dataPath, -1);
 				}
-				return VisualizerResult::Success(args.empty() ? "" : args[0]);
+				return ResultFromWaitStatus(status, dataPath);
 			}
 			
 			// Wait with timeout using polling (portable approach)
@@ -457,25 +492,16 @@ namespace MML {
 			int elapsed_ms = 0;
 			
 			while (elapsed_ms < timeout_ms) {
-				int status;
-				pid_t result = waitpid(pid, &status, WNOHANG);
+				int status = 0;
+				pid_t result = WaitForChild(pid, &status, WNOHANG);
 				
 				if (result == pid) {
 					// Child has exited
-					if (WIFEXITED(status)) {
-						int exitCode = WEXITSTATUS(status);
-						if (exitCode == 127) {
-							return VisualizerResult::Failure("Failed to execute visualizer", 
-																						  args.empty() ? "" : args[0], 127);
-						}
-						return VisualizerResult::Success(args.empty() ? "" : args[0]);
-					}
-					return VisualizerResult::Success(args.empty() ? "" : args[0]);
+					return ResultFromWaitStatus(status, dataPath);
 				}
 				else if (result < 0) {
 					// Error occurred
-					return VisualizerResult::Failure("Error waiting for process", 
-																		  args.empty() ? "" : args[0], -1);
+					return VisualizerResult::Failure("Error waiting for process", dataPath, -1);
 				}
 				
 				// Child still running - sleep and try again
@@ -487,11 +513,11 @@ namespace MML {
 			kill(pid, SIGTERM);
 			usleep(100000);  // Give it 100ms to terminate gracefully
 			kill(pid, SIGKILL);  // Force kill if still running
-			waitpid(pid, nullptr, 0);  // Reap the zombie
+			WaitForChild(pid, nullptr, 0);  // Reap the zombie
 			
 			return VisualizerResult::Timeout(
 				"Visualizer process timed out after " + std::to_string(timeout_ms) + " ms",
-				args.empty() ? "" : args[0]);
+				dataPath);
 		}
 #endif
 
-- 
2.43.0


From 6bd0dd5dc85edbaf3b5c333524d24fb9e8d42695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 42/59] fix: MinimumEnclosingCircle depended on the machine's
 entropy source and on absolute tolerances

---
 mml/algorithms/CompGeometry/Circles.h | 104 +++++++++++++-------------
 1 file changed, 50 insertions(+), 54 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Circles.h b/mml/algorithms/CompGeometry/Circles.h
index f5b8131..63f0b5b 100644
--- a/mml/algorithms/CompGeometry/Circles.h
+++ b/mml/algorithms/CompGeometry/Circles.h
@@ -18,6 +18,7 @@
 #include "mml/base/Geometry/Geometry2D.h"
 
 #include <algorithm>
+#include <limits>
 #include <random>
 #include <vector>
 
@@ -47,13 +48,14 @@ namespace CompGeometry {
 			Real bx = p3.X() - p1.X();
 			Real by = p3.Y() - p1.Y();
 
-			Real d = 2.0 * (ax * by - ay * bx);
-			if (std::abs(d) < EPSILON)
-				return false; // Collinear points
-
 			Real aSq = ax * ax + ay * ay;
 			Real bSq = bx * bx + by * by;
 
+			// Relative to the size of the triangle, so that small point sets are not taken for collinear
+			Real d = 2.0 * (ax * by - ay * bx);
+			if (std::abs(d) <= EPSILON * (aSq + bSq))
+				return false; // Collinear points
+
 			Real cx = (by * aSq - ay * bSq) / d;
 			Real cy = (ax * bSq - bx * aSq) / d;
 
@@ -62,51 +64,25 @@ namespace CompGeometry {
 			return true;
 		}
 
-		static bool IsInsideCircle(const Point2Cartesian& p, const Point2Cartesian& center, Real radius) {
-			return p.Dist(center) <= radius + EPSILON;
+		// Smallest circle around three collinear points: the one over the two farthest apart
+		static void CircleFromFarthestPair(const Point2Cartesian& p1, const Point2Cartesian& p2, 
+		                                   const Point2Cartesian& p3, Point2Cartesian& center, Real& radius) {
+			Real d12 = p1.Dist(p2);
+			Real d13 = p1.Dist(p3);
+			Real d23 = p2.Dist(p3);
+
+			if (d12 >= d13 && d12 >= d23)
+				CircleFrom2Points(p1, p2, center, radius);
+			else if (d13 >= d23)
+				CircleFrom2Points(p1, p3, center, radius);
+			else
+				CircleFrom2Points(p2, p3, center, radius);
 		}
 
-		static void WelzlHelper(std::vector<Point2Cartesian>& points, std::vector<Point2Cartesian>& boundary, 
-		                        int n, Point2Cartesian& center, Real& radius, std::mt19937& rng) {
-			if (n == 0 || boundary.size() == 3) {
-				if (boundary.empty()) {
-					center = Point2Cartesian(0, 0);
-					radius = 0;
-				} else if (boundary.size() == 1) {
-					center = boundary[0];
-					radius = 0;
-				} else if (boundary.size() == 2) {
-					CircleFrom2Points(boundary[0], boundary[1], center, radius);
-				} else {
-					if (!CircleFrom3Points(boundary[0], boundary[1], boundary[2], center, radius)) {
-						Real d01 = boundary[0].Dist(boundary[1]);
-						Real d02 = boundary[0].Dist(boundary[2]);
-						Real d12 = boundary[1].Dist(boundary[2]);
-
-						if (d01 >= d02 && d01 >= d12)
-							CircleFrom2Points(boundary[0], boundary[1], center, radius);
-						else if (d02 >= d12)
-							CircleFrom2Points(boundary[0], boundary[2], center, radius);
-						else
-							CircleFrom2Points(boundary[1], boundary[2], center, radius);
-					}
-				}
-				return;
-			}
-
-			std::uniform_int_distribution<int> dist(0, n - 1);
-			int idx = dist(rng);
-			std::swap(points[idx], points[n - 1]);
-			Point2Cartesian p = points[n - 1];
-
-			WelzlHelper(points, boundary, n - 1, center, radius, rng);
-
-			if (IsInsideCircle(p, center, radius))
-				return;
-
-			boundary.push_back(p);
-			WelzlHelper(points, boundary, n - 1, center, radius, rng);
-			boundary.pop_back();
+		static bool IsInsideCircle(const Point2Cartesian& p, const Point2Cartesian& center, Real radius) {
+			// Slack for the rounding of the circle itself, relative to its radius and to the coordinates
+			Real slack = radius * EPSILON + 8 * std::numeric_limits<Real>::epsilon() * (std::abs(center.X()) + std::abs(center.Y()));
+			return p.Dist(center) <= radius + slack;
 		}
 
 		// ========================================================================
@@ -185,15 +161,35 @@ namespace CompGeometry {
 			if (n == 1)
 				return Circle2D(points[0], 0);
 
-			std::random_device rd;
-			std::mt19937 rng(rd());
+			// Fixed seed: the expected running time only needs a shuffled order, and the answer
+			// must not depend on the system's entropy source
+			std::mt19937 rng;
 			std::shuffle(points.begin(), points.end(), rng);
 
-			Point2Cartesian center;
-			Real radius;
-			std::vector<Point2Cartesian> boundary;
-
-			WelzlHelper(points, boundary, n, center, radius, rng);
+			// Incremental form: whenever a point lies outside the circle of the points before it,
+			// it lies on the boundary of the new one (no recursion, so any number of points is fine)
+			Point2Cartesian center = points[0];
+			Real radius = 0;
+
+			for (int i = 1; i < n; i++) {
+				if (IsInsideCircle(points[i], center, radius))
+					continue;
+				center = points[i];
+				radius = 0;
+
+				for (int j = 0; j < i; j++) {
+					if (IsInsideCircle(points[j], center, radius))
+						continue;
+					CircleFrom2Points(points[i], points[j], center, radius);
+
+					for (int k = 0; k < j; k++) {
+						if (IsInsideCircle(points[k], center, radius))
+							continue;
+						if (!CircleFrom3Points(points[i], points[j], points[k], center, radius))
+							CircleFromFarthestPair(points[i], points[j], points[k], center, radius);
+					}
+				}
+			}
 
 			return Circle2D(center, radius);
 		}
-- 
2.43.0


From eaa5460a047ec9566d9a7a93dc9ffaf48f77ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 43/59] fix: Monte Carlo integration reported negative or NaN
 error estimates and success without samples

---
 mml/core/Integration/MonteCarloIntegration.h | 41 ++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/mml/core/Integration/MonteCarloIntegration.h b/mml/core/Integration/MonteCarloIntegration.h
index 4ba2623..15a7a6c 100644
--- a/mml/core/Integration/MonteCarloIntegration.h
+++ b/mml/core/Integration/MonteCarloIntegration.h
@@ -64,6 +64,27 @@ namespace MML
 		}
 	};
 
+	namespace Detail {
+		/// @brief Result reported when there is nothing to sample (value 0, not converged)
+		inline MonteCarloResult MonteCarloNoSamples(const char* algorithm_name, double elapsed_ms) {
+			MonteCarloResult r;
+			r.status = AlgorithmStatus::InvalidInput;
+			r.error_message = "Number of samples must be positive";
+			r.algorithm_name = algorithm_name;
+			r.elapsed_time_ms = elapsed_ms;
+			return r;
+		}
+
+		/// @brief A non-finite estimate is never a converged success
+		inline void MonteCarloCheckFinite(MonteCarloResult& r) {
+			if (std::isfinite(r.value) && std::isfinite(r.error_estimate))
+				return;
+			r.converged = false;
+			r.status = AlgorithmStatus::NumericalInstability;
+			r.error_message = "Integral estimate is not finite";
+		}
+	} // namespace Detail
+
 	//////////////////////////////////////////////////////////////////////////
 	/// @brief Plain Monte Carlo integrator for N-dimensional integrals
 	///
@@ -127,6 +148,8 @@ namespace MML
 			Real sum = 0.0;
 			Real sum_sq = 0.0;
 			size_t n = config.num_samples;
+			if (n < (config.use_antithetic ? 2u : 1u))
+				return Detail::MonteCarloNoSamples("MonteCarloIntegrator", timer.elapsed_ms());
 
 			VectorN<Real, N> point;
 
@@ -172,13 +195,15 @@ namespace MML
 			Real mean = sum / n;
 			Real mean_sq = sum_sq / n;
 			Real variance = mean_sq - mean * mean;
+			if (variance < 0.0)
+				variance = 0.0; // rounding
 
 			// Standard error of the mean
 			Real std_error = std::sqrt(variance / n);
 
 			// Integral estimate = volume * mean
 			Real integral = volume * mean;
-			Real error = volume * std_error;
+			Real error = std::abs(volume) * std_error;
 
 			// Check convergence against target
 			bool converged =
@@ -193,6 +218,7 @@ namespace MML
 			result.function_evaluations = static_cast<int>(result.samples_used);
 			result.status = AlgorithmStatus::Success;
 			result.algorithm_name = "MonteCarloIntegrator";
+			Detail::MonteCarloCheckFinite(result);
 			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
@@ -267,6 +293,9 @@ namespace MML
 															 int strata_per_dim = 10, int samples_per_stratum = 10, unsigned int seed = 0) {
 			AlgorithmTimer timer;
 
+			if (strata_per_dim < 1 || samples_per_stratum < 1)
+				return Detail::MonteCarloNoSamples("StratifiedMonteCarloIntegrator", timer.elapsed_ms());
+
 			if (seed != 0) {
 				_rng.seed(seed);
 			}
@@ -345,10 +374,12 @@ namespace MML
 			Real mean = sum / total_strata;
 			Real mean_sq = sum_sq / total_strata;
 			Real variance = (mean_sq - mean * mean) / total_strata;
+			if (variance < 0.0)
+				variance = 0.0; // rounding
 			Real std_error = std::sqrt(variance);
 
 			Real integral = volume * mean;
-			Real error = volume * std_error;
+			Real error = std::abs(volume) * std_error;
 
 			bool converged = (std::abs(integral) < PrecisionValues<Real>::DivisionSafetyThreshold) ||
 											 (error / std::abs(integral) < PrecisionValues<Real>::DefaultToleranceStrict);
@@ -362,6 +393,7 @@ namespace MML
 			result.function_evaluations = static_cast<int>(total_samples);
 			result.status = AlgorithmStatus::Success;
 			result.algorithm_name = "StratifiedMonteCarloIntegrator";
+			Detail::MonteCarloCheckFinite(result);
 			result.elapsed_time_ms = timer.elapsed_ms();
 			return result;
 		}
@@ -401,6 +433,9 @@ namespace MML
 																		const VectorN<Real, N>& upper, size_t num_samples = 100000, unsigned int seed = 0) {
 			AlgorithmTimer timer;
 
+			if (num_samples == 0)
+				return Detail::MonteCarloNoSamples("HitOrMissIntegrator", timer.elapsed_ms());
+
 			if (seed != 0) {
 				_rng.seed(seed);
 			}
@@ -429,7 +464,7 @@ namespace MML
 			// Binomial standard error
 			Real variance = p * (1.0 - p);
 			Real std_error = std::sqrt(variance / num_samples);
-			Real error = bounding_volume * std_error;
+			Real error = std::abs(bounding_volume) * std_error;
 
 			MonteCarloResult result;
 			result.value = volume;
-- 
2.43.0


From 3a13db4c50261b8648640ba9de0e30b3fdcd3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 44/59] fix: detailed transforms, statistics and direct solvers
 ignored check_finite

---
 mml/algorithms/Fourier.h                   | 10 ++++++++++
 mml/algorithms/Statistics/StatisticsBase.h | 21 +++++++++++++++++++++
 mml/core/LinAlgEqSolvers/LinAlgDirect.h    |  5 +++++
 3 files changed, 36 insertions(+)

diff --git a/mml/algorithms/Fourier.h b/mml/algorithms/Fourier.h
index 9557dc9..77eaf34 100644
--- a/mml/algorithms/Fourier.h
+++ b/mml/algorithms/Fourier.h
@@ -20,6 +20,7 @@
 #include "../base/Vector/Vector.h"
 #include "../core/AlgorithmTypes.h"
 
+#include <cmath>
 #include <stdexcept>
 #include <string>
 
@@ -63,6 +64,11 @@ namespace MML::Fourier
 
 				compute(result);
 
+				if (config.check_finite)
+					for (int i = 0; i < static_cast<int>(result.value.size()); i++)
+						if (!std::isfinite(std::abs(result.value[i])))
+							throw NumericalMethodError(std::string(algorithm_name) + ": non-finite result");
+
 				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			};
@@ -77,6 +83,10 @@ namespace MML::Fourier
 				return MakeEvaluationFailureResult<ResultType>(
 					AlgorithmStatus::InvalidInput, ex.what(), algorithm_name);
 			}
+			catch (const NumericalMethodError& ex) {
+				return MakeEvaluationFailureResult<ResultType>(
+					AlgorithmStatus::NumericalInstability, ex.what(), algorithm_name);
+			}
 			catch (const std::exception& ex) {
 				return MakeEvaluationFailureResult<ResultType>(
 					AlgorithmStatus::AlgorithmSpecificFailure, ex.what(), algorithm_name);
diff --git a/mml/algorithms/Statistics/StatisticsBase.h b/mml/algorithms/Statistics/StatisticsBase.h
index 015ea79..8707b9a 100644
--- a/mml/algorithms/Statistics/StatisticsBase.h
+++ b/mml/algorithms/Statistics/StatisticsBase.h
@@ -11,8 +11,12 @@
 #if !defined MML_STATISTICS_BASE_H
 #define MML_STATISTICS_BASE_H
 
+#include "MMLExceptions.h"
 #include "core/AlgorithmTypes.h"
 
+#include <cmath>
+#include <string>
+
 namespace MML
 {
 	namespace Statistics
@@ -72,6 +76,17 @@ namespace MML
 
 		namespace StatisticsDetail
 		{
+			/// True if the numbers a caller relies on are finite
+			inline bool IsFiniteResult(const HypothesisTestDetailedResult& r) {
+				return std::isfinite(r.testStatistic) && std::isfinite(r.pValue);
+			}
+			inline bool IsFiniteResult(const ConfidenceIntervalDetailedResult& r) {
+				return std::isfinite(r.estimate) && std::isfinite(r.lowerBound) && std::isfinite(r.upperBound);
+			}
+			inline bool IsFiniteResult(const RankCorrelationDetailedResult& r) {
+				return std::isfinite(r.rho);
+			}
+
 			/// Execute a statistics Detailed operation with timing and exception handling.
 			///
 			/// @tparam ResultType The detailed result type
@@ -88,6 +103,8 @@ namespace MML
 					AlgorithmTimer timer;
 					ResultType result = MakeEvaluationSuccessResult<ResultType>(algorithm_name);
 					compute(result);
+					if (config.check_finite && !IsFiniteResult(result))
+						throw NumericalMethodError(std::string(algorithm_name) + ": non-finite result");
 					result.elapsed_time_ms = timer.elapsed_ms();
 					return result;
 				};
@@ -98,6 +115,10 @@ namespace MML
 				try {
 					return execute();
 				}
+				catch (const NumericalMethodError& ex) {
+					return MakeEvaluationFailureResult<ResultType>(
+						AlgorithmStatus::NumericalInstability, ex.what(), algorithm_name);
+				}
 				catch (const std::invalid_argument& ex) {
 					return MakeEvaluationFailureResult<ResultType>(
 						AlgorithmStatus::InvalidInput, ex.what(), algorithm_name);
diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 9ec4425..957b2a1 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -60,6 +60,11 @@ namespace MML
 
 				compute(result);
 
+				if (config.check_finite)
+					for (int i = 0; i < result.solution.size(); i++)
+						if (!std::isfinite(std::abs(result.solution[i])))
+							throw MatrixNumericalError(std::string(algorithm_name) + ": non-finite solution");
+
 				result.elapsed_time_ms = timer.elapsed_ms();
 				return result;
 			};
-- 
2.43.0


From d89734710030b192afbb00940b4e76100f77704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 45/59] fix: Graph was left with half a vertex or half an edge
 when an allocation failed

---
 mml/base/Graph.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index ea96e00..84927f2 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -175,8 +175,14 @@ namespace MML
 		size_t addVertex(const V& data = V{})
 		{
 			size_t idx = _vertexData.size();
-			_vertexData.push_back(data);
-			_adjList.push_back({});
+			_adjList.emplace_back();
+			try {
+				_vertexData.push_back(data);
+			}
+			catch (...) {
+				_adjList.pop_back();   // keep one adjacency list per vertex
+				throw;
+			}
 			return idx;
 		}
 
@@ -221,13 +227,19 @@ namespace MML
 			}
 
 			_adjList[from].push_back(Edge<E>(to, weight));
-			++_numEdges;
 
 			if (_type == Type::Undirected && from != to)
 			{
-				_adjList[to].push_back(Edge<E>(from, weight));
-				// Note: we count undirected edge as 1 edge, not 2
+				try {
+					_adjList[to].push_back(Edge<E>(from, weight));
+				}
+				catch (...) {
+					_adjList[from].pop_back();   // never leave half of an undirected edge behind
+					throw;
+				}
 			}
+
+			++_numEdges;   // Note: we count undirected edge as 1 edge, not 2
 		}
 
 		/// Check if edge exists from 'from' to 'to'
-- 
2.43.0


From 4f071dc7288f20621d06cec1bace6e080d9af113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 46/59] fix: Dijkstra and path reconstruction did not terminate
 with negative or NaN weights

---
 mml/algorithms/GraphAlgorithms.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/GraphAlgorithms.h b/mml/algorithms/GraphAlgorithms.h
index a25d14e..f4b2545 100644
--- a/mml/algorithms/GraphAlgorithms.h
+++ b/mml/algorithms/GraphAlgorithms.h
@@ -204,6 +204,17 @@ namespace MML
 	///                    DIJKSTRA'S ALGORITHM                             ///
 	///////////////////////////////////////////////////////////////////////////
 
+	/// Weight of an edge for Dijkstra's algorithm. Negative weights and NaN are rejected: with them
+	/// the parent pointers can form a cycle and the search (or the path reconstruction) never ends.
+	template<typename E>
+	Real DijkstraEdgeWeight(const E& weight)
+	{
+		Real w = static_cast<Real>(weight);
+		if (!(w >= 0))
+			throw std::invalid_argument("Dijkstra - edge weights must be non-negative");
+		return w;
+	}
+
 	/// Find shortest path from start to all vertices using Dijkstra's algorithm
 	/// Requires non-negative edge weights
 	/// Complexity: O((V + E) log V) with priority queue
@@ -211,6 +222,7 @@ namespace MML
 	/// @param graph  The graph (must have non-negative weights)
 	/// @param start  Starting vertex index
 	/// @return TraversalResult with distances and parent pointers for path reconstruction
+	/// @throws std::invalid_argument if a negative (or NaN) edge weight is met
 	template<typename V, typename E>
 	TraversalResult Dijkstra(const Graph<V, E>& graph, size_t start)
 	{
@@ -244,7 +256,7 @@ namespace MML
 			for (const auto& edge : graph.neighbors(u))
 			{
 				size_t v = edge.to;
-				Real newDist = result.distance[u] + static_cast<Real>(edge.weight);
+				Real newDist = result.distance[u] + DijkstraEdgeWeight(edge.weight);
 
 				if (newDist < result.distance[v])
 				{
@@ -260,6 +272,7 @@ namespace MML
 
 	/// Find shortest path from start to specific target using Dijkstra
 	/// Early termination when target is reached
+	/// @throws std::invalid_argument if a negative (or NaN) edge weight is met
 	template<typename V, typename E>
 	PathResult DijkstraPath(const Graph<V, E>& graph, size_t start, size_t target)
 	{
@@ -318,7 +331,7 @@ namespace MML
 			for (const auto& edge : graph.neighbors(u))
 			{
 				size_t v = edge.to;
-				Real newDist = dist[u] + static_cast<Real>(edge.weight);
+				Real newDist = dist[u] + DijkstraEdgeWeight(edge.weight);
 
 				if (newDist < dist[v])
 				{
@@ -427,6 +440,8 @@ namespace MML
 			path.push_back(curr);
 			if (curr == start)
 				break;
+			if (path.size() >= parent.size())
+				return {};  // Parent pointers form a cycle: no path to start
 			curr = parent[curr];
 		}
 
-- 
2.43.0


From 6425b73d8bc19854c598e3ab581a32a4091613ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:21 +0000
Subject: [PATCH 47/59] fix: Matrix3D, MatrixSym, Matrix and BandDiagonalMatrix
 lost their consistency when an allocation failed in Resize or assignment

---
 mml/base/Matrix/Matrix.h         |  8 +++++++-
 mml/base/Matrix/Matrix3D.h       | 20 ++++----------------
 mml/base/Matrix/MatrixBandDiag.h |  9 +++++----
 mml/base/Matrix/MatrixSym.h      |  4 ++--
 4 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 2067be1..01f862e 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -322,7 +322,13 @@ namespace MML
 		///////////////////////          Assignment operators              //////////////////////
 		
 		/// @brief Copy assignment
-		Matrix& operator=(const Matrix& m) = default;
+		Matrix& operator=(const Matrix& m)
+		{
+			_data = m._data;   // the only step that can fail: dimensions follow the data
+			_rows = m._rows;
+			_cols = m._cols;
+			return *this;
+		}
 		
 		/// @brief Move assignment
 		Matrix& operator=(Matrix&& m) noexcept
diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index db2389f..bdf11a1 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -171,16 +171,8 @@ namespace MML {
 		/// @brief Copy assignment (deep copy).
 		Matrix3D& operator=(const Matrix3D& other) {
 			if (this != &other) {
-				_dim1 = other._dim1;
-				_dim2 = other._dim2;
-				_dim3 = other._dim3;
-				_data = other._data;
-				if (!_data.empty())
-					BuildPointers();
-				else {
-					_rows.clear();
-					_slices.clear();
-				}
+				Matrix3D copy(other);      // may throw, this object is untouched until it succeeds
+				*this = std::move(copy);
 			}
 			return *this;
 		}
@@ -306,9 +298,7 @@ namespace MML {
 			if (d1 == _dim1 && d2 == _dim2 && d3 == _dim3)
 				return;
 			if (d1 > 0 && d2 > 0 && d3 > 0) {
-				_dim1 = d1; _dim2 = d2; _dim3 = d3;
-				_data.assign(d1 * d2 * d3, Type{});
-				BuildPointers();
+				*this = Matrix3D(d1, d2, d3);   // may throw, this object is untouched until it succeeds
 			} else {
 				_dim1 = _dim2 = _dim3 = 0;
 				_data.clear();
@@ -324,9 +314,7 @@ namespace MML {
 		/// @param initVal Value to initialize all elements.
 		void Resize(int d1, int d2, int d3, const Type& initVal) {
 			if (d1 > 0 && d2 > 0 && d3 > 0) {
-				_dim1 = d1; _dim2 = d2; _dim3 = d3;
-				_data.assign(d1 * d2 * d3, initVal);
-				BuildPointers();
+				*this = Matrix3D(d1, d2, d3, initVal);   // may throw, this object is untouched until it succeeds
 			} else {
 				_dim1 = _dim2 = _dim3 = 0;
 				_data.clear();
diff --git a/mml/base/Matrix/MatrixBandDiag.h b/mml/base/Matrix/MatrixBandDiag.h
index 0bdff9f..80c211b 100644
--- a/mml/base/Matrix/MatrixBandDiag.h
+++ b/mml/base/Matrix/MatrixBandDiag.h
@@ -90,9 +90,10 @@ namespace MML {
 		// Subdiagonal elements are in a[j..n-1][0..m1-1] with j > 0 appropriate to the number of
 		// elements on each subdiagonal. Superdiagonal elements are in a[0..j][m1+1..m1+m2] with
 		// j < n-1 appropriate to the number of elements on each superdiagonal.
+		// _data is declared (and so assigned) first: if its copy fails, the dimensions still describe it
+		Matrix<Real> _data; ///< Compact storage of band elements
 		int _dim;			///< Matrix dimension (n×n)
 		int _m1, _m2;		///< Lower and upper bandwidth
-		Matrix<Real> _data; ///< Compact storage of band elements
 
 	public:
 		/// /** @name Dimension Accessors
@@ -115,10 +116,10 @@ namespace MML {
 		/// @throws Runtime error if data dimensions don't match.
 
 		BandDiagonalMatrix(int dim, int m1, int m2, const Matrix<Real>& data)
-			: _dim(dim)
+			: _data(data)
+			, _dim(dim)
 			, _m1(m1)
-			, _m2(m2)
-			, _data(data) {
+			, _m2(m2) {
 			if (data.rows() != dim || data.cols() != m1 + m2 + 1)
 				throw MatrixDimensionError("BandDiagonalMatrix constructor: data dimensions must be dim x (m1+m2+1)");
 		}
diff --git a/mml/base/Matrix/MatrixSym.h b/mml/base/Matrix/MatrixSym.h
index 38552e0..90c68d5 100644
--- a/mml/base/Matrix/MatrixSym.h
+++ b/mml/base/Matrix/MatrixSym.h
@@ -268,8 +268,8 @@ namespace MML
 			}
 
 			validateDimension(newDim);
+			_data.assign(numElements(newDim), Type{0});   // may throw, the dimension changes only afterwards
 			_dim = newDim;
-			_data.assign(numElements(newDim), Type{0});
 		}
 
 		/// @brief Resizes the matrix with optional data preservation.
@@ -539,8 +539,8 @@ namespace MML
 		/// @brief Copy assignment.
 		MatrixSym& operator=(const MatrixSym& other) {
 			if (this != &other) {
+				_data = other._data;   // may throw, the dimension changes only afterwards
 				_dim = other._dim;
-				_data = other._data;
 			}
 			return *this;
 		}
-- 
2.43.0


From ea049f0dad6557b1e4186da6b77565c12b83a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:21 +0000
Subject: [PATCH 48/59] fix: ODESystemSolution counters ran ahead of its
 storage when an allocation failed

---
 mml/base/ODESystemSolution.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index af7263e..0223d82 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -41,11 +41,7 @@ namespace MML
 		/// @brief Extend storage capacity to hold index ind, using exponential growth (1.5x)
 		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
-			
-			// resizing the storage while preserving old values
-			_tval.Resize(_totalSavedSteps, true);
-			_xval.Resize(_sysDim, _totalSavedSteps, true);
+			reserve(std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1));
 		}
 
 		/// @brief Stored time points, without the unused capacity
@@ -120,9 +116,10 @@ namespace MML
 		/// @param n Number of points to reserve space for
 		void reserve(int n) {
 			if (n > _totalSavedSteps) {
+				// resizing the storage while preserving old values (the capacity changes only if both succeed)
+				_tval.Resize(n, true);
+				_xval.Resize(_sysDim, n, true);
 				_totalSavedSteps = n;
-				_tval.Resize(_totalSavedSteps, true);
-				_xval.Resize(_sysDim, _totalSavedSteps, true);
 			}
 		}
 
@@ -243,11 +240,13 @@ namespace MML
 		/// @note Call this after integration completes to free unused memory
 		void setFinalSize(int numDoneSteps)
 		{
-			_totalSavedSteps = numDoneSteps + 1;
-			_count = numDoneSteps + 1;
+			int n = numDoneSteps + 1;
+
+			_xval.Resize(_sysDim, n, true);
+			_tval.Resize(n, true);
 
-			_tval.Resize(_totalSavedSteps, true);
-			_xval.Resize(_sysDim, _totalSavedSteps, true);
+			_totalSavedSteps = n;
+			_count = n;
 		}
 
 		/// @brief Create linear interpolator for specified component
-- 
2.43.0


From f49c2b561c7249d80f073b84aba862141a752564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:21 +0000
Subject: [PATCH 49/59] fix: Interval leaked the base intervals it had taken
 over when its construction failed

---
 mml/base/Intervals.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index d37158c..14e5d4e 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -473,9 +473,21 @@ namespace MML {
 		/// @param intervals Initializer list of BaseInterval pointers (takes ownership).
 
 		Interval(std::initializer_list<BaseInterval*> intervals) {
-			for (BaseInterval* interval : intervals) {
-				_intervals.emplace_back(std::shared_ptr<BaseInterval>(interval));
+			// take ownership of all of them before anything can throw half way
+			std::vector<std::unique_ptr<BaseInterval>> owned;
+			try {
+				owned.reserve(intervals.size());
+				_intervals.reserve(intervals.size());
 			}
+			catch (...) {
+				for (BaseInterval* interval : intervals)
+					delete interval;
+				throw;
+			}
+			for (BaseInterval* interval : intervals)
+				owned.emplace_back(interval);
+			for (auto& interval : owned)
+				_intervals.emplace_back(std::move(interval));
 		}
 
 		/// @brief Adds a subinterval to the composite.
-- 
2.43.0


From 1e8a506022413b0d720427d1ac066d36a26cf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:21 +0000
Subject: [PATCH 50/59] fix: LoadFromCSVString silently shortened the data set
 when reading a line failed

---
 mml/tools/data_loader/DataLoaderCSV.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index 447abaf..5547528 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -304,6 +304,8 @@ namespace MML {
 					line.pop_back();
 				allData.push_back(SplitLine(line, delimiter));
 			}
+			if (iss.bad())
+				throw DataError("LoadFromCSVString: reading the content failed");
 
 			if (allData.empty())
 				throw DataError("LoadFromCSVString: Content is empty");
-- 
2.43.0


From 991e338d9d266bf65c5a9be2b717a1a95363754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:27 +0000
Subject: [PATCH 51/59] fix: KDTree was left half built after a failed
 allocation

---
 mml/algorithms/CompGeometry/KDTree.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/CompGeometry/KDTree.h b/mml/algorithms/CompGeometry/KDTree.h
index 0a2d07b..a4df11a 100644
--- a/mml/algorithms/CompGeometry/KDTree.h
+++ b/mml/algorithms/CompGeometry/KDTree.h
@@ -165,6 +165,15 @@ namespace MML {
 		/// Complexity: O(n log n) average case
 		void build(const std::vector<PointType>& points, 
 		           const KDTreeConfig& config = KDTreeConfig::Default()) {
+			// Built aside: if an allocation fails, this tree keeps what it had
+			KDTree tree;
+			tree.buildInPlace(points, config);
+			*this = std::move(tree);
+		}
+
+	private:
+		/// Build helper of build()
+		void buildInPlace(const std::vector<PointType>& points, const KDTreeConfig& config) {
 			AlgorithmTimer timer;
 			
 			_config = config;
@@ -191,6 +200,7 @@ namespace MML {
 			_stats.build_time_ms = timer.elapsed_ms();
 		}
 
+	public:
 		/**************************************************************************/
 		/*****                    Query Operations                            *****/
 		/**************************************************************************/
@@ -554,7 +564,7 @@ namespace MML {
 		/// Build tree from Point2Cartesian points
 		void build(const std::vector<Point2Cartesian>& points,
 		           const KDTreeConfig& config = KDTreeConfig::Default()) {
-			_originalPoints = points;
+			std::vector<Point2Cartesian> originalPoints = points;
 			
 			std::vector<VectorN<Real, 2>> vecPoints;
 			vecPoints.reserve(points.size());
@@ -563,6 +573,7 @@ namespace MML {
 			}
 			
 			_tree.build(vecPoints, config);
+			_originalPoints = std::move(originalPoints);
 		}
 		
 		/// Find nearest neighbor
@@ -616,7 +627,7 @@ namespace MML {
 		/// Build tree from Point3Cartesian points
 		void build(const std::vector<Point3Cartesian>& points,
 		           const KDTreeConfig& config = KDTreeConfig::Default()) {
-			_originalPoints = points;
+			std::vector<Point3Cartesian> originalPoints = points;
 			
 			std::vector<VectorN<Real, 3>> vecPoints;
 			vecPoints.reserve(points.size());
@@ -625,6 +636,7 @@ namespace MML {
 			}
 			
 			_tree.build(vecPoints, config);
+			_originalPoints = std::move(originalPoints);
 		}
 		
 		/// Find nearest neighbor
-- 
2.43.0


From dff9495568acc167c0ea17dfa3bad4d7ee256be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:27 +0000
Subject: [PATCH 52/59] fix: Triangle2D const queries raced on cached side
 lengths

---
 .../Geometry2DCore/Geometry2DTriangle.h       | 35 ++++++-------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
index f17eac9..357d07b 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
@@ -22,7 +22,7 @@
 namespace MML
 {
 	/// @brief 2D triangle defined by three vertices
-	/// @details Professional 2D triangle class with cached side lengths for efficiency.
+	/// @details Professional 2D triangle class.
 	///          Provides comprehensive geometric computations including area (signed and unsigned),
 	///          perimeter, centroid, circumcenter, incenter, circumradius, inradius, angles,
 	///          point containment tests, and triangle classification (right, isosceles, equilateral).
@@ -30,19 +30,6 @@ namespace MML
 	{
 	private:
 		Point2Cartesian _pnt1, _pnt2, _pnt3;
-		mutable Real _a, _b, _c; // Cached side lengths
-		mutable bool _sidesComputed;
-
-		/// @brief Computes and caches side lengths on demand
-		void ComputeSides() const
-		{
-			if (!_sidesComputed) {
-				_a = _pnt1.Dist(_pnt2);
-				_b = _pnt2.Dist(_pnt3);
-				_c = _pnt3.Dist(_pnt1);
-				_sidesComputed = true;
-			}
-		}
 
 	public:
 		/// @brief Constructs a triangle from three vertices
@@ -50,28 +37,28 @@ namespace MML
 		/// @param pnt2 Second vertex
 		/// @param pnt3 Third vertex
 		Triangle2D(const Point2Cartesian& pnt1, const Point2Cartesian& pnt2, const Point2Cartesian& pnt3) 
-			: _pnt1(pnt1), _pnt2(pnt2), _pnt3(pnt3), _a(0), _b(0), _c(0), _sidesComputed(false)
+			: _pnt1(pnt1), _pnt2(pnt2), _pnt3(pnt3)
 		{ }
 
 		/// @brief Gets first vertex (const version)
 		Point2Cartesian  Pnt1() const { return _pnt1; }
-		/// @brief Gets first vertex (mutable reference, invalidates cache)
-		Point2Cartesian& Pnt1() { _sidesComputed = false; return _pnt1; }
+		/// @brief Gets first vertex (mutable reference)
+		Point2Cartesian& Pnt1() { return _pnt1; }
 		/// @brief Gets second vertex (const version)
 		Point2Cartesian  Pnt2() const { return _pnt2; }
-		/// @brief Gets second vertex (mutable reference, invalidates cache)
-		Point2Cartesian& Pnt2() { _sidesComputed = false; return _pnt2; }
+		/// @brief Gets second vertex (mutable reference)
+		Point2Cartesian& Pnt2() { return _pnt2; }
 		/// @brief Gets third vertex (const version)
 		Point2Cartesian  Pnt3() const { return _pnt3; }
-		/// @brief Gets third vertex (mutable reference, invalidates cache)
-		Point2Cartesian& Pnt3() { _sidesComputed = false; return _pnt3; }
+		/// @brief Gets third vertex (mutable reference)
+		Point2Cartesian& Pnt3() { return _pnt3; }
 
 		/// @brief Gets length of side a (P1 to P2)
-		Real A() const { ComputeSides(); return _a; }
+		Real A() const { return _pnt1.Dist(_pnt2); }
 		/// @brief Gets length of side b (P2 to P3)
-		Real B() const { ComputeSides(); return _b; }
+		Real B() const { return _pnt2.Dist(_pnt3); }
 		/// @brief Gets length of side c (P3 to P1)
-		Real C() const { ComputeSides(); return _c; }
+		Real C() const { return _pnt3.Dist(_pnt1); }
 
 		/// @brief Calculates the perimeter
 		Real Perimeter() const { return A() + B() + C(); }
-- 
2.43.0


From dad203d95a81311aae44bac2c61b3d839f4ab7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:27 +0000
Subject: [PATCH 53/59] fix: copied coordinate transformations called functions
 bound to the original object

---
 mml/core/CoordTransf/CoordTransf2D.h      | 17 +++++++
 mml/core/CoordTransf/CoordTransf3D.h      | 61 +++++++++++++++++++++++
 mml/core/CoordTransf/CoordTransfLorentz.h |  7 +++
 3 files changed, 85 insertions(+)

diff --git a/mml/core/CoordTransf/CoordTransf2D.h b/mml/core/CoordTransf/CoordTransf2D.h
index 8079a30..f4375ba 100644
--- a/mml/core/CoordTransf/CoordTransf2D.h
+++ b/mml/core/CoordTransf/CoordTransf2D.h
@@ -99,6 +99,13 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCart2DRotation(const CoordTransfCart2DRotation& other) : CoordTransfCart2DRotation(other._angle)
+		{
+			_transf = other._transf;
+			_inverse = other._inverse;
+		}
+
 		/// @brief Constructor for 2D rotation transformation
 		/// @param inAngle Rotation angle in radians (counterclockwise positive)
 		CoordTransfCart2DRotation(Real inAngle) : 
@@ -179,6 +186,11 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfObliqueToCartesian2D(const CoordTransfObliqueToCartesian2D& other) : CoordTransfObliqueToCartesian2D(other._angle)
+		{
+		}
+
 		/// @brief Constructor for oblique to Cartesian transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfObliqueToCartesian2D(Real inAngle)
@@ -243,6 +255,11 @@ namespace MML
 		const ScalarFunctionFromStdFunc<2> _fInverse2;
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCartesianToOblique2D(const CoordTransfCartesianToOblique2D& other) : CoordTransfCartesianToOblique2D(other._angle)
+		{
+		}
+
 		/// @brief Constructor for Cartesian to oblique transformation
 		/// @param inAngle Angle between oblique Y-axis and X-axis (in radians)
 		CoordTransfCartesianToOblique2D(Real inAngle)
diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 6b3d814..751f3ab 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -37,6 +37,13 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCart3DRotationXAxis(const CoordTransfCart3DRotationXAxis& other) : CoordTransfCart3DRotationXAxis(other._angle)
+		{
+			_transf = other._transf;
+			_inverse = other._inverse;
+		}
+
 		/// @brief Constructor for X-axis rotation
 		/// @param inAngle Rotation angle in radians (counterclockwise looking down positive X-axis)
 		CoordTransfCart3DRotationXAxis(Real inAngle) : _angle(inAngle),
@@ -111,6 +118,13 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCart3DRotationYAxis(const CoordTransfCart3DRotationYAxis& other) : CoordTransfCart3DRotationYAxis(other._angle)
+		{
+			_transf = other._transf;
+			_inverse = other._inverse;
+		}
+
 		CoordTransfCart3DRotationYAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -172,6 +186,13 @@ namespace MML
 		const ScalarFunctionFromStdFunc<3> _fInverse1, _fInverse2, _fInverse3;
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCart3DRotationZAxis(const CoordTransfCart3DRotationZAxis& other) : CoordTransfCart3DRotationZAxis(other._angle)
+		{
+			_transf = other._transf;
+			_inverse = other._inverse;
+		}
+
 		CoordTransfCart3DRotationZAxis(Real inAngle) : _angle(inAngle),
 			_f1([this](const VectorN<Real, 3>& q) { return func1(q); }),
 			_f2([this](const VectorN<Real, 3>& q) { return func2(q); }),
@@ -261,6 +282,13 @@ namespace MML
 		}
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCart3DRotationEuler(const CoordTransfCart3DRotationEuler& other) : CoordTransfCart3DRotationEuler(other._alpha, other._beta, other._gamma)
+		{
+			_transf = other._transf;
+			_inverse = other._inverse;
+		}
+
 		/// @brief Constructor using ZYZ Euler angles
 		/// @param alpha First rotation around Z-axis (radians)
 		/// @param beta Second rotation around Y'-axis (radians)
@@ -333,6 +361,14 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransf3DCartOrthogonal(const CoordTransf3DCartOrthogonal& other) : CoordTransf3DCartOrthogonal(other._base[0], other._base[1], other._base[2])
+		{
+			for (int i = 0; i < 3; ++i) _base[i] = other._base[i];
+			_transf = other._transf;
+			_transfInverse = other._transfInverse;
+		}
+
 		/// @brief Constructor for orthogonal transformation
 		/// @param b1 First basis vector (must be orthogonal to b2, b3)
 		/// @param b2 Second basis vector (must be orthogonal to b1, b3)
@@ -429,6 +465,14 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_transfInverse * q)[2]; }
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransf3DCartGeneral(const CoordTransf3DCartGeneral& other) : CoordTransf3DCartGeneral(other._transf)
+		{
+			for (int i = 0; i < 3; ++i) _base[i] = other._base[i];
+			_transf = other._transf;
+			_transfInverse = other._transfInverse;
+		}
+
 		/// @brief Constructor from transformation matrix
 		/// @param transfMat 3x3 transformation matrix (must be non-singular)
 		/// @throws SingularMatrixError if matrix is singular (determinant ≈ 0)
@@ -508,6 +552,15 @@ namespace MML
 		Real funcInverse3(const VectorN<Real, 3>& q) const { return (_baseMat * q)[2]; }
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCartesianToOblique3D(const CoordTransfCartesianToOblique3D& other) : CoordTransfCartesianToOblique3D(other._base[0], other._base[1], other._base[2])
+		{
+			for (int i = 0; i < 3; ++i) _base[i] = other._base[i];
+			for (int i = 0; i < 3; ++i) _dual[i] = other._dual[i];
+			_baseMat = other._baseMat;
+			_baseMatInv = other._baseMatInv;
+		}
+
 		/// @brief Constructor for oblique coordinate system
 		/// @param b1 First basis vector (need not be orthogonal)
 		/// @param b2 Second basis vector (need not be orthogonal)
@@ -656,6 +709,14 @@ namespace MML
 		}
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfCart3DRotationQuaternion(const CoordTransfCart3DRotationQuaternion& other) : CoordTransfCart3DRotationQuaternion(other._quat)
+		{
+			_quat = other._quat;
+			_transf = other._transf;
+			_inverse = other._inverse;
+		}
+
 		// Construct from quaternion
 		explicit CoordTransfCart3DRotationQuaternion(const Quaternion& q) 
 			: _quat(q),
diff --git a/mml/core/CoordTransf/CoordTransfLorentz.h b/mml/core/CoordTransf/CoordTransfLorentz.h
index ce2a6f1..0cc9bc9 100644
--- a/mml/core/CoordTransf/CoordTransfLorentz.h
+++ b/mml/core/CoordTransf/CoordTransfLorentz.h
@@ -43,6 +43,13 @@ namespace MML {
 		const ScalarFunctionFromStdFunc<4> _fInv1, _fInv2, _fInv3, _fInv4;
 
 	public:
+		/// @brief Copy constructor: the component functions of the copy are bound to the copy, not to other
+		CoordTransfLorentzXAxis(const CoordTransfLorentzXAxis& other) : CoordTransfLorentzXAxis(other._velocity)
+		{
+			_transf = other._transf;
+			_inverse = other._inverse;
+		}
+
 		/// @brief Construct Lorentz boost along X-axis
 		/// @param inVelocity Velocity in units of c, must be in [0, 1)
 		/// @throws std::range_error if velocity is outside valid range
-- 
2.43.0


From dbff1606002eed0569efd779e18f5c4780407408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:27 +0000
Subject: [PATCH 54/59] fix: copied reference frames shared children, failed
 reparenting left half a link

---
 mml/core/CoordSystem.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mml/core/CoordSystem.h b/mml/core/CoordSystem.h
index f111182..92c8e2a 100644
--- a/mml/core/CoordSystem.h
+++ b/mml/core/CoordSystem.h
@@ -93,6 +93,20 @@ namespace MML
 			SetParentFrame(parentFrame);
 		}
 
+		/// @brief Copy constructor - the copy gets the same parent, but takes over no children
+		/// @note A child has exactly one parent, so the children stay with the original
+		ReferenceFrame3D(const ReferenceFrame3D& other)
+		{
+			SetParentFrame(other._parentFrame);
+		}
+
+		/// @brief Copy assignment - joins the parent of the other frame, keeps its own children
+		ReferenceFrame3D& operator=(const ReferenceFrame3D& other)
+		{
+			SetParentFrame(other._parentFrame);
+			return *this;
+		}
+
 		/// @brief Virtual destructor - detaches from parent and orphans children
 		/// 
 		/// Lifetime model: Non-owning raw pointers. Parent does not own children.
@@ -121,19 +135,12 @@ namespace MML
 			if (parentFrame == _parentFrame)
 				return true;
 
-			// Prevent cycles: can't set parent if it would create a cycle
-			if (parentFrame != nullptr && parentFrame->IsAncestor(this))
-				return false;  // Would create a cycle
-
-			// Detach from old parent first
-			if (_parentFrame != nullptr)
-				_parentFrame->RemoveChildInternal(this);
-
-			_parentFrame = parentFrame;
-
+			// Refuses cycles and detaches from the old parent
 			if (parentFrame != nullptr)
-				parentFrame->AddChildFrame(this);
+				return parentFrame->AddChildFrame(this);
 
+			_parentFrame->RemoveChildInternal(this);
+			_parentFrame = nullptr;
 			return true;
 		}
 
@@ -153,11 +160,13 @@ namespace MML
 			if (std::find(_childFrames.begin(), _childFrames.end(), childFrame) != _childFrames.end())
 				return true;  // Already a child, no-op (return true since it's already there)
 
+			// The only step that can fail comes first
+			_childFrames.push_back(childFrame);
+
 			// Detach child from its old parent
 			if (childFrame->_parentFrame != nullptr)
 				childFrame->_parentFrame->RemoveChildInternal(childFrame);
 
-			_childFrames.push_back(childFrame);
 			childFrame->_parentFrame = this;
 			return true;
 		}
-- 
2.43.0


From 789f6f3d704d1d5e70190389cfc1b382edecdbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:27 +0000
Subject: [PATCH 55/59] fix: LinearSystem cached answers for another tolerance
 and failed allocations as facts about the matrix

---
 mml/systems/LinearSystem.h | 67 ++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 412feca..0d4feb4 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -23,7 +23,9 @@
 
 #include <optional>
 #include <string>
+#include <utility>
 #include <memory>
+#include <new>
 #include <cmath>
 #include <vector>
 
@@ -455,38 +457,35 @@ namespace MML::Systems
 
 		/// @brief Check if matrix is symmetric within tolerance
 		bool isSymmetric(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isSymmetric.has_value()) {
-				if (!isSquare()) {
-					_isSymmetric = false;
-				} else {
-					_isSymmetric = true;
-					int n = rows();
-					for (int i = 0; i < n && *_isSymmetric; ++i)
-						for (int j = i + 1; j < n && *_isSymmetric; ++j)
-							if (std::abs(_A(i, j) - _A(j, i)) > tol)
-								_isSymmetric = false;
-				}
+			// The answer depends on the tolerance: only a repeated question is answered from the cache
+			if (!_isSymmetric.has_value() || _isSymmetric->first != tol) {
+				bool symmetric = isSquare();
+				int n = rows();
+				for (int i = 0; i < n && symmetric; ++i)
+					for (int j = i + 1; j < n && symmetric; ++j)
+						if (std::abs(_A(i, j) - _A(j, i)) > tol)
+							symmetric = false;
+				_isSymmetric = std::make_pair(tol, symmetric);
 			}
-			return *_isSymmetric;
+			return _isSymmetric->second;
 		}
 
 		/// @brief Check if matrix is positive definite
 		///
 		/// @note Attempts Cholesky decomposition
 		bool isPositiveDefinite(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isPositiveDefinite.has_value()) {
-				if (!isSymmetric(tol)) {
-					_isPositiveDefinite = false;
-				} else {
+			if (!_isPositiveDefinite.has_value() || _isPositiveDefinite->first != tol) {
+				bool definite = isSymmetric(tol);
+				if (definite) {
 					try {
 						CholeskySolver<Type> solver(_A);
-						_isPositiveDefinite = true;
 					} catch (const SingularMatrixError&) {
-						_isPositiveDefinite = false;
+						definite = false;
 					}
 				}
+				_isPositiveDefinite = std::make_pair(tol, definite);
 			}
-			return *_isPositiveDefinite;
+			return _isPositiveDefinite->second;
 		}
 
 		/// @brief Check if matrix is strictly diagonally dominant
@@ -546,11 +545,11 @@ namespace MML::Systems
 		///
 		/// @param tol Threshold below which singular values are considered zero
 		int Rank(Type tol = -1) const {
-			if (!_rank.has_value()) {
+			if (!_rank.has_value() || _rank->first != tol) {
 				SVDecompositionSolver<Type> solver(_A);
-				_rank = solver.Rank(tol);
+				_rank = std::make_pair(tol, solver.Rank(tol));
 			}
-			return *_rank;
+			return _rank->second;
 		}
 
 		/// @brief Compute nullity (dimension of null space)
@@ -576,6 +575,8 @@ namespace MML::Systems
 				LUSolver<Type> solver(_A);
 				solver.inverse(Ainv);
 				return norm1 * Utils::OneNorm(Ainv);
+			} catch (const std::bad_alloc&) {
+				throw;
 			} catch (...) {
 				return 1e30; // Singular
 			}
@@ -589,6 +590,8 @@ namespace MML::Systems
 				LUSolver<Type> solver(_A);
 				solver.inverse(Ainv);
 				return normInf * Utils::InfinityNorm(Ainv);
+			} catch (const std::bad_alloc&) {
+				throw;
 			} catch (...) {
 				return 1e30; // Singular
 			}
@@ -804,6 +807,8 @@ namespace MML::Systems
 			if (result.isSquare) {
 				try {
 					result.determinant = Determinant();
+				} catch (const std::bad_alloc&) {
+					throw;
 				} catch (...) {
 					result.determinant = 0;
 				}
@@ -874,10 +879,10 @@ namespace MML::Systems
 		mutable std::optional<CholeskyDecomposition<Type>> _cholesky;
 
 		// Cached properties
-		mutable std::optional<bool> _isSymmetric;
-		mutable std::optional<bool> _isPositiveDefinite;
+		mutable std::optional<std::pair<Type, bool>> _isSymmetric; // tolerance, answer
+		mutable std::optional<std::pair<Type, bool>> _isPositiveDefinite;
 		mutable std::optional<Type> _conditionNumber;
-		mutable std::optional<int> _rank;
+		mutable std::optional<std::pair<Type, int>> _rank;
 
 		//=========================================================================
 		// INTERNAL HELPERS
@@ -908,6 +913,9 @@ namespace MML::Systems
 					// For now, store raw LU and determinant
 					_lu->determinant = solver.det();
 					_lu->valid = true;
+				} catch (const std::bad_alloc&) {
+					_lu.reset(); // not an answer about the matrix
+					throw;
 				} catch (...) {
 					_lu->valid = false;
 				}
@@ -922,6 +930,9 @@ namespace MML::Systems
 					_qr->Q = solver.GetQ();
 					_qr->R = solver.GetR();
 					_qr->valid = true;
+				} catch (const std::bad_alloc&) {
+					_qr.reset(); // not an answer about the matrix
+					throw;
 				} catch (...) {
 					_qr->valid = false;
 				}
@@ -938,6 +949,9 @@ namespace MML::Systems
 					_svd->singularValues = solver.getW();
 					_svd->rank = solver.Rank();
 					_svd->valid = true;
+				} catch (const std::bad_alloc&) {
+					_svd.reset(); // not an answer about the matrix
+					throw;
 				} catch (...) {
 					_svd->valid = false;
 				}
@@ -951,6 +965,9 @@ namespace MML::Systems
 					CholeskySolver<Type> solver(_A);
 					_cholesky->L = solver.L();
 					_cholesky->valid = true;
+				} catch (const std::bad_alloc&) {
+					_cholesky.reset(); // not an answer about the matrix
+					throw;
 				} catch (...) {
 					_cholesky->valid = false;
 				}
-- 
2.43.0


From 20c8bc1699ca1c50f707ce262a6f93fd8054454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:24 +0000
Subject: [PATCH 56/59] fix: a CSV row whose cells are all empty is kept when
 the delimiter is white space

---
 mml/tools/data_loader/DataLoaderCSV.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index 5547528..4a450ce 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -60,8 +60,8 @@ namespace MML {
 					firstLine = false;
 				}
 
-				// Skip empty lines
-				if (Trim(line).empty()) continue;
+				// Skip empty lines; a line of delimiters is a row of missing values
+				if (Trim(line).empty() && line.find(opts.delimiter) == std::string::npos) continue;
 
 				// Handle Windows line endings
 				if (!line.empty() && line.back() == '\r')
@@ -299,7 +299,7 @@ namespace MML {
 			std::string line;
 
 			while (std::getline(iss, line)) {
-				if (Trim(line).empty()) continue;
+				if (Trim(line).empty() && line.find(delimiter) == std::string::npos) continue;
 				if (!line.empty() && line.back() == '\r')
 					line.pop_back();
 				allData.push_back(SplitLine(line, delimiter));
-- 
2.43.0


From 5307118ea777365631cd0f255826e81915428629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:24 +0000
Subject: [PATCH 57/59] fix: BracketMinimum reports no valid bracket when the
 function falls without bound

---
 mml/algorithms/Optimization.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 467ca25..c86983f 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -258,7 +258,7 @@ namespace MML {
 						result.bx = u;
 						result.fa = result.fb;
 						result.fb = fu;
-						result.valid = true;
+						result.valid = std::isfinite(fu); // a function that falls without bound has no minimum
 						return result;
 					} else if (fu > result.fb) {
 						// Minimum between ax and u
@@ -301,7 +301,8 @@ namespace MML {
 				result.fc = fu;
 			}
 
-			result.valid = true;
+			// The loop also ends when the values stop being comparable or fall without bound
+			result.valid = std::isfinite(result.cx) && std::isfinite(result.fb) && result.fb <= result.fc;
 			return result;
 		}
 
-- 
2.43.0


From 52120f8b6cd26a618b8ff3f1e019f338a3b7fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:19 +0000
Subject: [PATCH 58/59] fix: a solution container keeps its capacity in step
 with its storage when a resize fails

---
 mml/base/DAESystem.h         | 14 ++++++++++----
 mml/base/ODESystemSolution.h |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 68eb8fb..3fa5a6b 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -56,11 +56,13 @@ namespace MML
 		/// @brief Extend storage capacity to hold index ind, using exponential growth (1.5x)
 		void ExtendSavedSteps(int ind)
 		{
-			_totalSavedSteps = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
+			int n = std::max(static_cast<int>(_totalSavedSteps * 1.5) + 1, ind + 1);
 			
-			_tval.Resize(_totalSavedSteps, true);
-			_xval.Resize(_diffDim, _totalSavedSteps, true);
-			_yval.Resize(_algDim, _totalSavedSteps, true);
+			// the capacity changes only if all of the storage could be resized
+			_tval.Resize(n, true);
+			_xval.Resize(_diffDim, n, true);
+			_yval.Resize(_algDim, n, true);
+			_totalSavedSteps = n;
 		}
 
 		/// @brief Stored time points, without the unused capacity
@@ -325,6 +327,10 @@ namespace MML
 		/// @note Call this after integration completes to free unused memory
 		void setFinalSize(int numDoneSteps)
 		{
+			if (numDoneSteps >= _totalSavedSteps)
+				ExtendSavedSteps(numDoneSteps);
+
+			// from here on only unused storage is released
 			_totalSavedSteps = numDoneSteps + 1;
 			_count = _totalSavedSteps;
 			_tval.Resize(_totalSavedSteps, true);
diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 0223d82..6394652 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -241,12 +241,13 @@ namespace MML
 		void setFinalSize(int numDoneSteps)
 		{
 			int n = numDoneSteps + 1;
+			reserve(n);
 
-			_xval.Resize(_sysDim, n, true);
-			_tval.Resize(n, true);
-
+			// from here on only unused storage is released
 			_totalSavedSteps = n;
 			_count = n;
+			_xval.Resize(_sysDim, n, true);
+			_tval.Resize(n, true);
 		}
 
 		/// @brief Create linear interpolator for specified component
-- 
2.43.0


From 15f15d57f557309a27c5dcc0415d550a2fc97ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:19 +0000
Subject: [PATCH 59/59] fix: ScanChaosVsParameter puts the scanned parameter
 back when the computation throws

---
 mml/systems/DynamicalSystemAnalyzer.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzer.h b/mml/systems/DynamicalSystemAnalyzer.h
index 36a15da..9e5dd54 100644
--- a/mml/systems/DynamicalSystemAnalyzer.h
+++ b/mml/systems/DynamicalSystemAnalyzer.h
@@ -389,6 +389,16 @@ namespace MML::Systems
 			Type dParam = (paramMax - paramMin) / (numSteps - 1);
 			Type originalParam = _sys.getParam(paramIndex);
 
+			// The scanned parameter is put back however the scan ends
+			struct ParamRestorer {
+				IDynamicalSystem& sys;
+				int index;
+				Type value;
+				~ParamRestorer() {
+					try { sys.setParam(index, value); } catch (...) {}
+				}
+			} restorer{ _sys, paramIndex, originalParam };
+
 			for (int i = 0; i < numSteps; ++i) {
 				Type param = paramMin + i * dParam;
 				_sys.setParam(paramIndex, param);
@@ -397,8 +407,6 @@ namespace MML::Systems
 				results.push_back({param, lyap.maxExponent});
 			}
 
-			// Restore original parameter
-			_sys.setParam(paramIndex, originalParam);
 			return results;
 		}
 
-- 
2.43.0

